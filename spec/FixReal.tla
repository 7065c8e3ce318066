------------------------------- MODULE FixReal -------------------------------
(* Real numbers in fixed point with 150 fractional bits on BigNat, and the
   elementary functions by series, with errors far below 2^-120 for arguments
   of moderate size.                                                          *)
EXTENDS Floats, Integers, Sequences
One == <<1>>
NSq(a) == NMul(a, a)
(* ------------------------------------------------------------ fixed point *)
(* <<s, n>> stands for (-1)^s * n / 2^P *)
P == 150
Fx(s, n) == <<IF n = <<>> THEN 0 ELSE s, n>>
FxInt(k) == Fx(IF k < 0 THEN 1 ELSE 0, NShl(NFromInt(IF k < 0 THEN -k ELSE k), P))
FxOf(u) == Fx(u.s, IF u.e + P >= 0 THEN NShl(u.m, u.e + P) ELSE NShr(u.m, -(u.e + P))[1])
FxNeg(a) == Fx(1 - a[1], a[2])
FxAdd(a, b) == IF a[1] = b[1] THEN Fx(a[1], NAdd(a[2], b[2]))
               ELSE IF NCmp(a[2], b[2]) >= 0 THEN Fx(a[1], NSub(a[2], b[2])) ELSE Fx(b[1], NSub(b[2], a[2]))
FxSub(a, b) == FxAdd(a, FxNeg(b))
FxMul(a, b) == Fx((a[1] + b[1]) % 2, NShr(NMul(a[2], b[2]), P)[1])
FxDivS(a, k) == Fx(a[1], NDivS(a[2], k)[1])
FxMulS(a, k) == Fx(a[1], NMulS(a[2], k, 0))
FxDiv(a, b) == Fx((a[1] + b[1]) % 2, NDivMod(NShl(a[2], P), b[2])[1])
FxHalf(a) == Fx(a[1], NShr(a[2], 1)[1])
FxShl(a, k) == Fx(a[1], IF k >= 0 THEN NShl(a[2], k) ELSE NShr(a[2], -k)[1])
FxCmp(a, b) == LET d == FxSub(a, b) IN IF d[2] = <<>> THEN 0 ELSE IF d[1] = 1 THEN -1 ELSE 1
FxAbs(a) == Fx(0, a[2])
F1 == FxInt(1)
(* sum of x^(2k+1)/(2k+1), with signs: the inverse tangents *)
RECURSIVE AtSum(_, _, _, _, _)
AtSum(t, xx, k, alt, acc) == IF t[2] = <<>> THEN acc
  ELSE AtSum(FxMul(t, xx), xx, k + 1, alt, FxAdd(acc, LET q == FxDivS(t, 2 * k + 1) IN IF alt /\ k % 2 = 1 THEN FxNeg(q) ELSE q))
AtanhS(x) == AtSum(x, FxMul(x, x), 0, FALSE, Fx(0, <<>>))
AtanS(x) == AtSum(x, FxMul(x, x), 0, TRUE, Fx(0, <<>>))
Ln2 == FxMulS(AtanhS(FxDivS(F1, 3)), 2)
Pi == FxSub(FxMulS(AtanS(FxDivS(F1, 5)), 16), FxMulS(AtanS(FxDivS(F1, 239)), 4))
HalfPi == FxHalf(Pi)
(* nearest integer of a / b, as a BigNat of the magnitude *)
NearestQ(a, b) == NDivMod(NAdd(a[2], NShr(b[2], 1)[1]), b[2])[1]
RECURSIVE NToInt(_)
NToInt(n) == IF n = <<>> THEN 0 ELSE n[1] + Q * NToInt(Tail(n))
RECURSIVE TaySum(_, _, _, _, _)                     \* t, factor, next divisor start, step, acc:  t * f / (k(k+1)..)
TaySum(t, f, k, step, acc) == IF t[2] = <<>> THEN acc
  ELSE LET u == FxMul(t, f)
           v == IF step = 1 THEN FxDivS(u, k) ELSE FxDivS(FxDivS(u, k), k + 1)
       IN TaySum(v, f, k + step, step, FxAdd(acc, v))
ExpR(r) == TaySum(F1, r, 1, 1, F1)
(* e^a = m * 2^k: <<m, k>> *)
ExpP(a) == IF NBitLen(a[2]) > P + 12 THEN <<F1, IF a[1] = 1 THEN -4000 ELSE 4000>> ELSE
           LET n == NToInt(NearestQ(a, Ln2))
               k == IF a[1] = 1 THEN -n ELSE n
           IN <<ExpR(FxSub(a, Fx(a[1], NMulS(Ln2[2], n, 0)))), k>>
ExpF(a) == LET e == ExpP(a) IN FxShl(e[1], e[2])
SinR(r) == TaySum(r, FxNeg(FxMul(r, r)), 2, 2, r)
CosR(r) == TaySum(F1, FxNeg(FxMul(r, r)), 1, 2, F1)
Trig(a, q) == LET n == NearestQ(a, HalfPi)
                  r == FxSub(a, Fx(a[1], NMul(n, HalfPi[2])))
                  j0 == NLimb(n, 1) % 4
                  j == ((IF a[1] = 1 THEN 4 - j0 ELSE j0) + q) % 4
              IN CASE j = 0 -> SinR(r) [] j = 1 -> CosR(r) [] j = 2 -> FxNeg(SinR(r)) [] j = 3 -> FxNeg(CosR(r))
SinF(a) == Trig(a, 0)
CosF(a) == Trig(a, 1)
(* ln of m * 2^e > 0 *)
LnU(m, e) == LET L == NBitLen(m)
                 x == Fx(0, IF L <= P THEN NShl(m, P - L) ELSE NShr(m, L - P)[1])        \* in [1/2, 1)
                 k == L + e
                 t == AtanhS(FxDiv(FxSub(x, F1), FxAdd(x, F1)))
             IN FxAdd(FxMulS(t, 2), Fx(IF k < 0 THEN 1 ELSE 0, NMulS(Ln2[2], IF k < 0 THEN -k ELSE k, 0)))
LnF(a) == LnU(a[2], -P)
(* root by Newton's method on integers *)
RECURSIVE ISqrt(_, _)
ISqrt(n, g) == LET h == NShr(NAdd(g, NDivMod(n, g)[1]), 1)[1] IN IF NCmp(h, g) >= 0 THEN g ELSE ISqrt(n, h)
SqrtF(a) == IF a[2] = <<>> THEN a ELSE LET n == NShl(a[2], P) IN Fx(0, ISqrt(n, NShl(One, (NBitLen(n) + 1) \div 2 + 1)))
RECURSIVE AtanF(_)
AtanF(a) == IF a[1] = 1 THEN FxNeg(AtanF(FxNeg(a)))
            ELSE IF FxCmp(a, F1) > 0 THEN FxSub(HalfPi, AtanF(FxDiv(F1, a)))
            ELSE IF FxCmp(FxMulS(a, 4), F1) > 0          \* atan a = 2 atan(a / (1 + sqrt(1 + a^2)))
                 THEN FxMulS(AtanF(FxDiv(a, FxAdd(F1, SqrtF(FxAdd(F1, FxMul(a, a)))))), 2)
            ELSE AtanS(a)
AsinF(a) == LET c2 == FxSub(F1, FxMul(a, a))
            IN IF c2[2] = <<>> THEN Fx(a[1], HalfPi[2]) ELSE AtanF(FxDiv(a, SqrtF(c2)))

=============================================================================
