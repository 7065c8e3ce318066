------------------------------- MODULE CMath -------------------------------
(* The functions of <math.h> on binary64.  A case is a call and the result the
   implementation gave; the specification computes the exact mathematical value
   (BigNat for the functions with exact results, rational fixed point with
   error far below the tolerance for the others) and judges the result.

   Numbers of a case are packed: [s, b, m] sign, biased exponent, fraction
   (BigNat, 15-bit limbs, least significant first).                           *)
EXTENDS FixReal, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
F == F64
Dec(j) == UDec(F, <<j.s, j.b, j.m>>)

(* ------------------------------------------------------------ exact part *)
FracPart(u) == IF u.e >= 0 THEN <<>> ELSE NSub(u.m, NShl(UTrunc(u), -u.e))     \* times 2^u.e
IsInt(u) == u.e >= 0 \/ FracPart(u) = <<>>
IntOf(s, n) == Round(F, s, n, 0, FALSE)
UpAway(u, away) == IntOf(u.s, IF away THEN NAdd(UTrunc(u), One) ELSE UTrunc(u))
Floor(u) == IF u.c # "n" \/ IsInt(u) THEN u ELSE UpAway(u, u.s = 1)
Ceil(u) == IF u.c # "n" \/ IsInt(u) THEN u ELSE UpAway(u, u.s = 0)
RoundH(u) == IF u.c # "n" \/ IsInt(u) THEN u
             ELSE UpAway(u, NCmp(NShl(FracPart(u), 1), NShl(One, -u.e)) >= 0)
TruncF(u) == IF u.c # "n" \/ IsInt(u) THEN u ELSE UpAway(u, FALSE)
FracF(u) == IF u.c = "q" THEN u ELSE IF u.c = "i" THEN UN(u.s, <<>>, 0)
            ELSE LET f == FracPart(u) IN IF f = <<>> THEN UN(u.s, <<>>, 0) ELSE UN(u.s, f, u.e)
RECURSIVE ModShift(_, _, _)                        \* r * 2^k mod n
ModShift(r, k, n) == IF k = 0 THEN r ELSE LET j == IF k > 60 THEN 60 ELSE k IN ModShift(NDivMod(NShl(r, j), n)[2], k - j, n)
FMod(x, y) ==
  IF x.c = "q" \/ y.c = "q" \/ x.c = "i" \/ UIsZero(y) THEN UNaN
  ELSE IF y.c = "i" \/ UIsZero(x) THEN x
  ELSE LET r == IF x.e >= y.e THEN ModShift(NDivMod(x.m, y.m)[2], x.e - y.e, y.m)
                ELSE IF y.e - x.e > 60 /\ NBitLen(x.m) + x.e < NBitLen(y.m) + y.e THEN <<>>
                ELSE NDivMod(x.m, NShl(y.m, y.e - x.e))[2]
       IN IF x.e < y.e /\ y.e - x.e > 60 /\ NBitLen(x.m) + x.e < NBitLen(y.m) + y.e THEN x
          ELSE UN(x.s, r, IF x.e < y.e THEN x.e ELSE y.e)
FrexpM(u) == IF u.c # "n" \/ u.m = <<>> THEN u ELSE UN(u.s, u.m, -NBitLen(u.m))
FrexpE(u) == IF u.c # "n" \/ u.m = <<>> THEN 0 ELSE NBitLen(u.m) + u.e
Ldexp(u, n) == IF u.c # "n" \/ u.m = <<>> THEN u ELSE Round(F, u.s, u.m, u.e + n, FALSE)
Class(u) == CASE u.c = "q" -> "nan" [] u.c = "i" -> "inf" [] u.m = <<>> -> "zero"
              [] NBitLen(u.m) + u.e <= 2 - Bias(F) - 1 -> "sub" [] OTHER -> "norm"
Same(a, b) == IF a.c = "q" THEN b.c = "q" ELSE UEnc(F, a) = UEnc(F, b)

(* r is the double nearest to the root of x (no root is half way between doubles) *)
CmpScaled(a, ea, b, eb) == LET e == IF ea < eb THEN ea ELSE eb IN NCmp(NShl(a, ea - e), NShl(b, eb - e))
SqrtOk(x, r) ==
  IF x.c = "q" \/ (x.s = 1 /\ ~UIsZero(x)) THEN r.c = "q"
  ELSE IF x.c = "i" \/ UIsZero(x) THEN Same(x, r)
  ELSE /\ r.c = "n" /\ r.s = 0 /\ r.m # <<>>
       /\ LET m == NShl(r.m, 54 - NBitLen(r.m) + 2)  e == r.e - (54 - NBitLen(r.m) + 2)     \* 56 bits: an ulp is 8, half of one is 4, 2 below a power of two
              low == IF r.m = NShl(One, NBitLen(r.m) - 1) THEN <<2>> ELSE <<4>>
          IN CmpScaled(NSq(NSub(m, low)), 2 * e, x.m, x.e) <= 0 /\ CmpScaled(NSq(NAdd(m, <<4>>)), 2 * e, x.m, x.e) >= 0

(* ------------------------------------------------------------ special values *)
Neg(u) == u.s = 1 /\ ~UIsZero(u)
Big(u, n) == u.c = "i" \/ (u.m # <<>> /\ NBitLen(u.m) + u.e > n)             \* at least 2^n
Z(s) == UN(s, <<>>, 0)
UOne == UN(0, One, 0)
OddInt(u) == u.c = "n" /\ IsInt(u) /\ u.e <= 0 /\ NOdd(UTrunc(u))
Integer_(u) == u.c = "n" /\ IsInt(u)
None == [c |-> "x"]
Pw(x, y) ==         \* special cases of pow
  IF UIsZero(y) THEN UOne
  ELSE IF UCmp(x, UOne) = "eq" THEN UOne
  ELSE IF x.c = "q" \/ y.c = "q" THEN UNaN
  ELSE IF UIsZero(x) THEN IF y.s = 1 THEN UInf(IF OddInt(y) THEN x.s ELSE 0) ELSE Z(IF OddInt(y) THEN x.s ELSE 0)
  ELSE IF y.c = "i" THEN IF UCmp(x, UNeg(UOne)) = "eq" THEN UOne
       ELSE LET big == UCmp([x EXCEPT !.s = 0], UOne) = "gt" IN IF big = (y.s = 0) THEN UInf(0) ELSE Z(0)
  ELSE IF x.c = "i" THEN LET s == IF OddInt(y) THEN x.s ELSE 0 IN IF y.s = 1 THEN Z(s) ELSE UInf(s)
  ELSE IF Neg(x) /\ ~Integer_(y) THEN UNaN
  ELSE None
Special(fn, x, y) ==
  CASE fn = "pow" -> Pw(x, y)
    [] fn = "atan2" -> IF x.c = "q" \/ y.c = "q" THEN UNaN ELSE None
    [] x.c = "q" -> UNaN
    [] fn = "exp" /\ x.c = "i" -> IF x.s = 1 THEN Z(0) ELSE x
    [] fn \in {"log", "log2", "log10"} -> IF UIsZero(x) THEN UInf(1) ELSE IF x.s = 1 THEN UNaN ELSE IF x.c = "i" THEN x ELSE None
    [] fn \in {"sin", "cos", "tan"} /\ x.c = "i" -> UNaN
    [] fn \in {"sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh"} /\ UIsZero(x) -> x
    [] fn \in {"asin", "acos"} /\ UCmp([x EXCEPT !.s = 0], UOne) = "gt" -> UNaN
    [] fn \in {"sinh", "asinh"} /\ x.c = "i" -> x
    [] fn = "cosh" /\ x.c = "i" -> UInf(0)
    [] fn = "tanh" /\ x.c = "i" -> UN(x.s, One, 0)
    [] fn = "acosh" -> IF UCmp(x, UOne) = "lt" THEN UNaN ELSE IF x.c = "i" THEN x ELSE None
    [] fn = "atanh" -> IF UCmp([x EXCEPT !.s = 0], UOne) = "gt" THEN UNaN ELSE IF UCmp([x EXCEPT !.s = 0], UOne) = "eq" THEN UInf(x.s) ELSE None
    [] OTHER -> None

(* the value as <<fixed, k>>: fixed * 2^k *)
V(a) == <<a, 0>>
AtSpec2(y, x) ==     \* arguments of any kind but NaN
  LET k == NMax(IF x.m = <<>> THEN -2000 ELSE NBitLen(x.m) + x.e, IF y.m = <<>> THEN -2000 ELSE NBitLen(y.m) + y.e)     \* only the ratio counts
      ax == IF x.c = "i" THEN (IF y.c = "i" THEN F1 ELSE FxInt(1)) ELSE IF y.c = "i" THEN FxInt(0) ELSE FxOf([x EXCEPT !.s = 0, !.e = @ - k])
      ay == IF y.c = "i" THEN F1 ELSE IF x.c = "i" THEN FxInt(0) ELSE FxOf([y EXCEPT !.s = 0, !.e = @ - k])
      t == IF ax[2] = <<>> /\ ay[2] = <<>> THEN FxInt(0)
           ELSE IF FxCmp(ay, ax) > 0 THEN FxSub(HalfPi, AtanF(FxDiv(ax, ay))) ELSE AtanF(FxDiv(ay, ax))
      r == IF x.s = 1 THEN FxSub(Pi, t) ELSE t
  IN IF y.s = 1 THEN FxNeg(r) ELSE r
Value(fn, x, y) ==
  LET a == FxOf(x) IN
  CASE fn = "exp" -> ExpP(a)
    [] fn = "log" -> V(LnU(x.m, x.e))
    [] fn = "log2" -> V(FxDiv(LnU(x.m, x.e), Ln2))
    [] fn = "log10" -> V(FxDiv(LnU(x.m, x.e), LnU(<<10>>, 0)))
    [] fn = "sin" -> V(SinF(a)) [] fn = "cos" -> V(CosF(a))
    [] fn = "tan" -> V(FxDiv(SinF(a), CosF(a)))
    [] fn = "asin" -> V(AsinF(a)) [] fn = "acos" -> V(FxSub(HalfPi, AsinF(a))) [] fn = "atan" -> V(AtSpec2(x, UOne))
    [] fn = "atan2" -> V(AtSpec2(y, x))
    [] fn = "sinh" -> LET e == ExpP(FxAbs(a)) i == FxDiv(F1, e[1]) IN <<LET h == FxHalf(FxSub(e[1], FxShl(i, -2 * e[2]))) IN Fx(x.s, h[2]), e[2]>>
    [] fn = "cosh" -> LET e == ExpP(FxAbs(a)) i == FxDiv(F1, e[1]) IN <<FxHalf(FxAdd(e[1], FxShl(i, -2 * e[2]))), e[2]>>
    [] fn = "tanh" -> IF Big(x, 6) THEN V(Fx(x.s, F1[2])) ELSE LET e == ExpF(FxMulS(FxAbs(a), 2)) t == FxDiv(FxSub(e, F1), FxAdd(e, F1)) IN V(Fx(x.s, t[2]))
    [] fn = "asinh" -> LET b == FxAbs(a) l == IF Big(x, 80) THEN FxAdd(LnU(x.m, x.e), Ln2) ELSE LnF(FxAdd(b, SqrtF(FxAdd(FxMul(b, b), F1)))) IN V(Fx(x.s, l[2]))
    [] fn = "acosh" -> V(IF Big(x, 80) THEN FxAdd(LnU(x.m, x.e), Ln2) ELSE LnF(FxAdd(a, SqrtF(FxSub(FxMul(a, a), F1)))))
    [] fn = "atanh" -> V(FxHalf(LnF(FxDiv(FxAdd(F1, a), FxSub(F1, a)))))
    [] fn = "pow" -> LET l == LnU(x.m, x.e)
                         e == ExpP(FxMul(FxOf(y), l))
                     IN <<Fx(IF x.s = 1 /\ OddInt(y) THEN 1 ELSE 0, e[1][2]), e[2]>>
    [] OTHER -> V(F1)

(* the result r is close to the value: within 2^-Tol of the larger of the value and the threshold *)
Tol == 26
Close(fn, x, y, r) ==
  LET v == Value(fn, x, y)
      top == NBitLen(v[1][2]) - P + v[2]                      \* 2^(top-1) <= |v| < 2^top
  IN IF r.c = "q" THEN FALSE
     ELSE IF fn = "pow" /\ Big(y, 20) /\ top <= 1100 /\ top >= -1100 THEN TRUE      \* a power of a number next to one: magnifies any error of the logarithm
     ELSE IF r.c = "i" THEN top >= 1024 /\ r.s = v[1][1]
     ELSE IF top > 1024 THEN FALSE
     ELSE IF top < -1021 THEN NBitLen(r.m) + r.e < -1020 \/ UIsZero(r)
     ELSE LET d == FxAbs(FxSub(FxOf([r EXCEPT !.e = @ - v[2]]), v[1]))
              thr == IF fn \in {"exp", "cosh", "pow"} THEN FxAbs(v[1])
                     ELSE IF fn = "tan" THEN FxAdd(F1, FxMul(v[1], v[1]))
                     ELSE LET u == FxShl(F1, -v[2]) IN IF FxCmp(FxAbs(v[1]), u) > 0 THEN FxAbs(v[1]) ELSE u
          IN FxCmp(FxShl(d, Tol), thr) <= 0
(* what the call must give, for functions with exact results *)
Exact(fn, x, y, n, ys) ==
  CASE fn = "floor" -> Floor(x) [] fn = "ceil" -> Ceil(x) [] fn = "round" -> RoundH(x)
    [] fn = "modf" -> FracF(x) [] fn = "fmod" -> FMod(x, y) [] fn = "frexp" -> FrexpM(x) [] fn = "ldexp" -> Ldexp(x, n)
    [] fn = "fabsf" -> [UConv(F32, x) EXCEPT !.s = 0]
    [] fn = "fabs" -> [x EXCEPT !.s = 0] [] fn = "copysign" -> [x EXCEPT !.s = ys]
    [] OTHER -> None
Second(fn, x) == CASE fn = "modf" -> TruncF(x) [] OTHER -> None
B(b) == IF b THEN 1 ELSE 0
IntRes(fn, x, s) ==       \* s: the sign bit as it is stored
  CASE fn = "isnan" -> B(x.c = "q") [] fn = "isinf" -> B(x.c = "i") [] fn \in {"finite", "isfinite"} -> B(x.c = "n")
    [] fn = "signbit" -> s [] OTHER -> 0
Judge(c) ==
  LET x == Dec(c.x)  y == Dec(c.y)  r == Dec(c.r)  fn == c.fn  e == Exact(fn, x, y, c.n, c.y.s)
  IN IF fn = "sqrt" THEN IF SqrtOk(x, r) THEN "" ELSE "not the nearest root"
     ELSE IF fn \in {"isnan", "isinf", "finite", "isfinite", "signbit"} THEN
       IF (c.i # 0) = (IntRes(fn, x, c.x.s) = 1) THEN "" ELSE "wrong answer"
     ELSE IF fn = "fpclassify" THEN IF c.cls = Class(x) THEN "" ELSE "wrong class, it is " \o Class(x)
     ELSE IF e.c # "x" THEN
       IF ~Same(e, r) THEN "wrong value"
       ELSE IF e.c = "q" /\ fn \in {"fabs", "copysign"} /\ c.r.s # (IF fn = "fabs" THEN 0 ELSE c.y.s) THEN "wrong sign of a NaN"
       ELSE IF fn = "frexp" /\ x.c = "n" /\ c.i # FrexpE(x) THEN "wrong exponent"
       ELSE IF fn = "modf" /\ ~Same(Second(fn, x), Dec(c.r2)) THEN "wrong integral part" ELSE ""
     ELSE LET sp == Special(fn, x, y) IN
       IF sp.c # "x" THEN IF Same(sp, r) \/ (UIsZero(sp) /\ UIsZero(r)) THEN "" ELSE "wrong value for a special argument"
       ELSE IF Close(fn, x, y, r) THEN "" ELSE "not close"

VARIABLES pid, why, phase
vars == <<pid, why, phase>>
Init == pid \in DOMAIN Cases /\ why = "" /\ phase = "called"
Call == phase = "called" /\ why' = Judge(Cases[pid]) /\ phase' = "judged" /\ pid' = pid
Finish == phase = "judged" /\ phase' = "end" /\ PrintT("@@" \o ToJson([pid |-> pid, why |-> why])) /\ UNCHANGED <<pid, why>>
Next == Call \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == phase \in {"called", "judged", "end"}
=============================================================================
