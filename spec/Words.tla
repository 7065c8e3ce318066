------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Machine words.  TLC integers are 32 bits wide, so a 64-bit word is a    *)
(* little-endian quadruple of limbs in base B = H*H (H = 256: 16-bit       *)
(* limbs).  H is a constant so that MCWords can compare every operator     *)
(* with ordinary integer arithmetic for *all* operands at H = 2 (8-bit     *)
(* words whose "4/2/1-byte" truncations are 4, 2 and 1 bits).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

CONSTANT H
B == H * H
BM == B - 1                      \* all-ones limb
HB == B \div 2                   \* sign bit of a limb
HalfBits == CHOOSE k \in 1..16 : 2^k = H
LimbBits == 2 * HalfBits
WordBits == 4 * LimbBits


W0 == <<0,0,0,0>>
W1 == <<1,0,0,0>>
WM1 == <<BM,BM,BM,BM>>
WMin == <<0,0,0,HB>>

IsWord(w) == /\ DOMAIN w = 1..4
             /\ \A i \in 1..4 : w[i] \in 0..BM

IsZero(a) == a[1] = 0 /\ a[2] = 0 /\ a[3] = 0 /\ a[4] = 0
IsNeg(a) == a[4] >= HB

WNot(a) == <<BM - a[1], BM - a[2], BM - a[3], BM - a[4]>>

AddC(a, b, c) ==
  LET s1 == a[1] + b[1] + c
      s2 == a[2] + b[2] + (s1 \div B)
      s3 == a[3] + b[3] + (s2 \div B)
      s4 == a[4] + b[4] + (s3 \div B)
  IN <<s1 % B, s2 % B, s3 % B, s4 % B>>
Add(a, b) == AddC(a, b, 0)
Sub(a, b) == AddC(a, WNot(b), 1)
Neg(a) == AddC(W0, WNot(a), 1)
Abs(a) == IF IsNeg(a) THEN Neg(a) ELSE a

BAnd(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
BOr(a, b) == <<a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4]>>
BXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>

(* limb product as <<low, high>>; never exceeds 31 bits for H = 256 *)
MulLimb(x, y) ==
  LET yl == y % H
      yh == y \div H
      p0 == x * yl
      p1 == x * yh
      lo == (p0 % B) + ((p1 % H) * H)
  IN <<lo % B, (p0 \div B) + (p1 \div H) + (lo \div B)>>

(* full product: eight limbs *)
MulWide(a, b) ==
  LET P == [i \in 1..4 |-> [j \in 1..4 |-> MulLimb(a[i], b[j])]]
      \* column sums (column k holds products of weight B^(k-1)); each < 8*B
      c1 == P[1][1][1]
      c2 == P[1][1][2] + P[1][2][1] + P[2][1][1] + (c1 \div B)
      c3 == P[1][2][2] + P[2][1][2] + P[1][3][1] + P[2][2][1] + P[3][1][1] + (c2 \div B)
      c4 == P[1][3][2] + P[2][2][2] + P[3][1][2] + P[1][4][1] + P[2][3][1] + P[3][2][1] + P[4][1][1] + (c3 \div B)
      c5 == P[1][4][2] + P[2][3][2] + P[3][2][2] + P[4][1][2] + P[2][4][1] + P[3][3][1] + P[4][2][1] + (c4 \div B)
      c6 == P[2][4][2] + P[3][3][2] + P[4][2][2] + P[3][4][1] + P[4][3][1] + (c5 \div B)
      c7 == P[3][4][2] + P[4][3][2] + P[4][4][1] + (c6 \div B)
      c8 == P[4][4][2] + (c7 \div B)
  IN <<c1 % B, c2 % B, c3 % B, c4 % B, c5 % B, c6 % B, c7 % B, c8 % B>>

Mul(a, b) == SubSeq(MulWide(a, b), 1, 4)

ULt(a, b) ==
  IF a[4] # b[4] THEN a[4] < b[4]
  ELSE IF a[3] # b[3] THEN a[3] < b[3]
  ELSE IF a[2] # b[2] THEN a[2] < b[2]
  ELSE a[1] < b[1]
SLt(a, b) == IF IsNeg(a) # IsNeg(b) THEN IsNeg(a) ELSE ULt(a, b)

(* shifts by 0 <= k < WordBits *)
Shl(a, k) ==
  LET q == k \div LimbBits
      r == k % LimbBits
      L(i) == IF i >= 1 /\ i <= 4 THEN a[i] ELSE 0
      up == 2^r
      dn == 2^(LimbBits - r)
      X(i) == ((L(i - q) % dn) * up) + (L(i - q - 1) \div dn)
  IN <<X(1), X(2), X(3), X(4)>>
ShrFill(a, k, fill) ==
  LET q == k \div LimbBits
      r == k % LimbBits
      L(i) == IF i <= 4 THEN a[i] ELSE fill
      up == 2^(LimbBits - r)
      dn == 2^r
      X(i) == (L(i + q) \div dn) + ((L(i + q + 1) % dn) * up)
  IN <<X(1), X(2), X(3), X(4)>>
Shr(a, k) == ShrFill(a, k, 0)
Sar(a, k) == ShrFill(a, k, IF IsNeg(a) THEN BM ELSE 0)

Bit(a, k) == (a[(k \div LimbBits) + 1] \div (2^(k % LimbBits))) % 2

(* unsigned division by shift and subtract: state <<quotient, remainder>> *)
RECURSIVE UDivStep(_, _, _, _, _)
UDivStep(a, b, k, q, r) ==
  IF k < 0 THEN <<q, r>>
  ELSE LET top == IsNeg(r)                     \* bit shifted out of r
           r1 == AddC(r, r, Bit(a, k))
           ge == top \/ ~ULt(r1, b)
       IN UDivStep(a, b, k - 1,
                   AddC(q, q, IF ge THEN 1 ELSE 0),
                   IF ge THEN Sub(r1, b) ELSE r1)

SmallNat(a) == a[4] = 0 /\ a[3] = 0 /\ a[2] < HB     \* fits a TLC integer
ToNat(a) == a[1] + B * a[2]
FromNat(n) == <<n % B, (n \div B) % B, (n \div (B*B)) % B, 0>>   \* small H only for > 31 bits
FromSmall(n) == <<n % B, n \div B, 0, 0>>            \* 0 <= n < B*HB
FromInt(n) == IF n >= 0 THEN FromSmall(n) ELSE Neg(FromSmall(-n))

TopBit(a) == LET i == CHOOSE i \in 1..4 : a[i] # 0 /\ \A j \in i+1..4 : a[j] = 0
                 b == CHOOSE b \in 0..LimbBits-1 : (2^(b)) <= a[i] /\ a[i] < (2^(b)) * 2
             IN (i - 1) * LimbBits + b
UDivMod(a, b) ==                                     \* b # 0
  IF SmallNat(a) /\ SmallNat(b)
  THEN <<FromSmall(ToNat(a) \div ToNat(b)), FromSmall(ToNat(a) % ToNat(b))>>
  ELSE IF IsZero(a) THEN <<W0, W0>>
  ELSE UDivStep(a, b, TopBit(a), W0, W0)

SDivMod(a, b) ==                                     \* truncating, b # 0
  LET d == UDivMod(Abs(a), Abs(b))
  IN << IF IsNeg(a) # IsNeg(b) THEN Neg(d[1]) ELSE d[1],
        IF IsNeg(a) THEN Neg(d[2]) ELSE d[2] >>

(* truncation to n "bytes" (n = 8, 4, 2, 1) and extension back to a word *)
ZExt(n, a) == CASE n = 8 -> a
                [] n = 4 -> <<a[1], a[2], 0, 0>>
                [] n = 2 -> <<a[1], 0, 0, 0>>
                [] n = 1 -> <<a[1] % H, 0, 0, 0>>
SExt(n, a) == CASE n = 8 -> a
                [] n = 4 -> IF a[2] >= HB THEN <<a[1], a[2], BM, BM>> ELSE <<a[1], a[2], 0, 0>>
                [] n = 2 -> IF a[1] >= HB THEN <<a[1], BM, BM, BM>> ELSE <<a[1], 0, 0, 0>>
                [] n = 1 -> LET l == a[1] % H IN
                            IF l >= H \div 2 THEN <<l + (B - H), BM, BM, BM>> ELSE <<l, 0, 0, 0>>

(* signed 64-bit overflow predicates *)
AddOv(a, b) == LET r == Add(a, b) IN IsNeg(a) = IsNeg(b) /\ IsNeg(r) # IsNeg(a)
SubOv(a, b) == LET r == Sub(a, b) IN IsNeg(a) # IsNeg(b) /\ IsNeg(r) # IsNeg(a)
MulOv(a, b) ==
  LET p == MulWide(Abs(a), Abs(b))
      lo == SubSeq(p, 1, 4)
      neg == IsNeg(a) # IsNeg(b)
      hi == \E i \in 5..8 : p[i] # 0
  IN hi \/ (IsNeg(lo) /\ ~(neg /\ lo = WMin))

(* bytes of a word, least significant first, and back *)
ByteOf(a, i) == LET l == a[(i \div 2) + 1] IN IF i % 2 = 0 THEN l % H ELSE l \div H
ToBytes(a, n) == [i \in 1..n |-> ByteOf(a, i - 1)]
FromBytes(b) ==                                       \* zero-extended
  LET g(i) == IF i <= Len(b) THEN b[i] ELSE 0
  IN <<g(1) + H * g(2), g(3) + H * g(4), g(5) + H * g(6), g(7) + H * g(8)>>
=============================================================================
