------------------------------ MODULE MCWords ------------------------------
(* Exhaustive validation of Words at H = 2: every operator on every pair of
   8-bit words is compared with integer arithmetic.  The state is the pair. *)
EXTENDS Words, TLC
VARIABLES a, b
N == 2^WordBits
W(n) == <<n % B, (n \div B) % B, (n \div (B*B)) % B, n \div (B*B*B)>>
U(w) == w[1] + B*(w[2] + B*(w[3] + B*w[4]))
S(w) == LET u == U(w) IN IF u >= N \div 2 THEN u - N ELSE u
Mod(n) == n % N
BitsOf(n, k) == (n \div 2^k) % 2
AbsI(n) == IF n < 0 THEN -n ELSE n
TDiv(x, y) == LET q == AbsI(x) \div AbsI(y) IN IF (x < 0) # (y < 0) THEN -q ELSE q
TMod(x, y) == x - y * TDiv(x, y)
SMax == N \div 2 - 1
SMinI == -(N \div 2)
Fits(n) == n >= SMinI /\ n <= SMax
bitsOfBytes(n) == (n * HalfBits)      \* "bytes" are H-valued digits
ext(n, x, signed) == LET k == bitsOfBytes(n) 
                         t == x % 2^k
                     IN IF signed /\ t >= 2^(k-1) THEN t - 2^k ELSE t
Init == a \in 0..N-1 /\ b = 0
Next == b < N-1 /\ b' = b + 1 /\ a' = a
Spec == Init /\ [][Next]_<<a,b>>
SA == S(W(a))
SB == S(W(b))
OkLin == /\ U(W(a)) = a /\ IsWord(W(a))
         /\ U(Add(W(a), W(b))) = Mod(a + b)
         /\ U(Sub(W(a), W(b))) = Mod(a - b)
         /\ U(Neg(W(a))) = Mod(-a)
         /\ U(WNot(W(a))) = N - 1 - a
         /\ U(Mul(W(a), W(b))) = Mod(a * b)
         /\ LET p == MulWide(W(a), W(b)) IN U(SubSeq(p,1,4)) + N * U(SubSeq(p,5,8)) = a * b
OkCmp == /\ ULt(W(a), W(b)) = (a < b)
         /\ SLt(W(a), W(b)) = (SA < SB)
         /\ IsZero(W(a)) = (a = 0) /\ IsNeg(W(a)) = (SA < 0)
OkBit == /\ \A k \in 0..WordBits-1 :
               /\ BitsOf(U(BAnd(W(a),W(b))), k) = BitsOf(a,k) * BitsOf(b,k)
               /\ BitsOf(U(BOr(W(a),W(b))), k) = IF BitsOf(a,k) + BitsOf(b,k) > 0 THEN 1 ELSE 0
               /\ BitsOf(U(BXor(W(a),W(b))), k) = (BitsOf(a,k) + BitsOf(b,k)) % 2
               /\ Bit(W(a), k) = BitsOf(a, k)
OkShift == b < WordBits =>
           /\ U(Shl(W(a), b)) = Mod(a * 2^b)
           /\ U(Shr(W(a), b)) = a \div 2^b
           /\ S(Sar(W(a), b)) = SA \div 2^b
OkDiv == b # 0 =>
           /\ LET d == UDivMod(W(a), W(b)) IN U(d[1]) = a \div b /\ U(d[2]) = a % b
           /\ LET d == UDivStep(W(a), W(b), WordBits-1, W0, W0) IN U(d[1]) = a \div b /\ U(d[2]) = a % b
           /\ LET d == SDivMod(W(a), W(b)) IN ~(SA = SMinI /\ SB = -1) =>
                 S(d[1]) = TDiv(SA, SB) /\ S(d[2]) = TMod(SA, SB)
OkOv == /\ AddOv(W(a), W(b)) = ~Fits(SA + SB)
        /\ SubOv(W(a), W(b)) = ~Fits(SA - SB)
        /\ MulOv(W(a), W(b)) = ~Fits(SA * SB)
OkExt == \A n \in {1,2,4,8} :
           /\ U(ZExt(n, W(a))) = ext(n, a, FALSE)
           /\ S(SExt(n, W(a))) = ext(n, a, TRUE)
           /\ U(FromBytes(ToBytes(W(a), n))) = ext(n, a, FALSE)
=============================================================================
