------------------------------- MODULE BigNat -------------------------------
(* Unbounded naturals: little-endian limb sequences in base Q, without
   trailing zeros (<<>> is 0).  Q = 2^15 keeps all products below 2^31.     *)
EXTENDS Integers, Sequences
CONSTANT QB                      \* bits per limb
Q == 2^QB

RECURSIVE NStrip(_)
NStrip(a) == IF a = <<>> THEN a
             ELSE IF a[Len(a)] = 0 THEN NStrip(SubSeq(a, 1, Len(a) - 1)) ELSE a
NLimb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE NFromInt(_)
NFromInt(n) == IF n = 0 THEN <<>> ELSE <<n % Q>> \o NFromInt(n \div Q)
NMax(x, y) == IF x > y THEN x ELSE y

RECURSIVE NAddR(_, _, _, _, _, _)
NAddR(a, b, i, n, c, acc) ==
  IF i > n THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET t == NLimb(a, i) + NLimb(b, i) + c
       IN NAddR(a, b, i + 1, n, t \div Q, Append(acc, t % Q))
NAdd(a, b) == NAddR(a, b, 1, NMax(Len(a), Len(b)), 0, <<>>)

RECURSIVE NSubR(_, _, _, _, _)
NSubR(a, b, i, c, acc) ==                         \* a >= b
  IF i > Len(a) THEN NStrip(acc)
  ELSE LET t == a[i] - NLimb(b, i) - c
       IN NSubR(a, b, i + 1, IF t < 0 THEN 1 ELSE 0, Append(acc, IF t < 0 THEN t + Q ELSE t))
NSub(a, b) == NSubR(a, b, 1, 0, <<>>)

RECURSIVE NCmpR(_, _, _)
NCmpR(a, b, i) == IF i = 0 THEN 0
                  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE NCmpR(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpR(a, b, Len(a))

(* a * k + c for 0 <= k, c < Q *)
RECURSIVE NMulSR(_, _, _, _, _)
NMulSR(a, k, i, c, acc) ==
  IF i > Len(a) THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET t == a[i] * k + c IN NMulSR(a, k, i + 1, t \div Q, Append(acc, t % Q))
NMulS(a, k, c) == IF k = 0 THEN NStrip(<<c>>) ELSE NMulSR(a, k, 1, c, <<>>)

Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE NMulR(_, _, _)
NMulR(a, b, i) == IF i > Len(b) THEN <<>>
                  ELSE NAdd(NMulS(a, b[i], 0),
                            LET r == NMulR(a, b, i + 1) IN IF r = <<>> THEN r ELSE <<0>> \o r)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE NStrip(NMulR(a, b, 1))

(* division by a small k: <<quotient, remainder>>; k < Q *)
RECURSIVE NDivSR(_, _, _, _, _)
NDivSR(a, k, i, r, acc) ==
  IF i = 0 THEN <<NStrip(acc), r>>
  ELSE LET t == r * Q + a[i] IN NDivSR(a, k, i - 1, t % k, <<t \div k>> \o acc)
NDivS(a, k) == NDivSR(a, k, Len(a), 0, <<>>)

LimbLen(x) == CHOOSE k \in 1..QB : 2^(k-1) <= x /\ x < 2^k
NBitLen(a) == IF a = <<>> THEN 0 ELSE (Len(a) - 1) * QB + LimbLen(a[Len(a)])

NShl(a, k) == IF a = <<>> THEN a ELSE Zeros(k \div QB) \o NMulS(a, 2^(k % QB), 0)
(* <<a >> k, inexact?>> *)
NShr(a, k) ==
  LET q == k \div QB
  IN IF q >= Len(a) THEN <<(<<>>), a # <<>>>>
     ELSE LET lost == \E i \in 1..q : a[i] # 0
              d == NDivS(SubSeq(a, q + 1, Len(a)), 2^(k % QB))
          IN <<d[1], lost \/ d[2] # 0>>
NOdd(a) == a # <<>> /\ a[1] % 2 = 1
NBit(a, k) == (NLimb(a, (k \div QB) + 1) \div 2^(k % QB)) % 2

(* long division: digit by digit, each estimated from the leading limbs of a
   remainder and a divisor shifted so that the top bit of its top limb is set *)
RECURSIVE NFixQ(_, _, _)
NFixQ(r, b, q) == LET t == NMulS(b, q, 0) IN IF NCmp(t, r) > 0 THEN NFixQ(r, b, q - 1) ELSE <<q, NSub(r, t)>>
NDigQ(r, b) == LET n == Len(b)
                   e == (NLimb(r, n + 1) * Q + NLimb(r, n)) \div b[n]
               IN NFixQ(r, b, IF e > Q - 1 THEN Q - 1 ELSE e)
RECURSIVE NDivR(_, _, _, _, _)
NDivR(a, b, k, q, r) ==
  IF k = 0 THEN <<NStrip(q), r>>
  ELSE LET r1 == IF r = <<>> /\ a[k] = 0 THEN <<>> ELSE <<a[k]>> \o r
           d == NDigQ(r1, b)
       IN NDivR(a, b, k - 1, <<d[1]>> \o q, d[2])
NDivMod(a, b) ==
  IF NCmp(a, b) < 0 THEN <<(<<>>), a>>
  ELSE IF Len(b) = 1 /\ b[1] < Q THEN LET d == NDivS(a, b[1]) IN <<d[1], NFromInt(d[2])>>
  ELSE LET s == QB - LimbLen(b[Len(b)])
           x == NShl(a, s)
           d == NDivR(x, NShl(b, s), Len(x), <<>>, <<>>)
       IN <<d[1], NShr(d[2], s)[1]>>

(* decimal digits, most significant first *)
RECURSIVE NDigitsR(_, _)
NDigitsR(a, acc) == IF a = <<>> THEN acc
                    ELSE LET d == NDivS(a, 10) IN NDigitsR(d[1], <<d[2]>> \o acc)
NDigits(a) == IF a = <<>> THEN <<0>> ELSE NDigitsR(a, <<>>)
RECURSIVE NPow(_, _)
NPow(k, n) == IF n = 0 THEN <<1>> ELSE NMulS(NPow(k, n - 1), k, 0)
=============================================================================
