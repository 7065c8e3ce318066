------------------------------- MODULE Floats -------------------------------
(***************************************************************************)
(* IEEE 754 binary floating point, round to nearest even, computed exactly *)
(* on BigNat and rounded once.  A format is [p |-> precision, eb |->       *)
(* exponent bits].  An unpacked number is                                  *)
(*   [c |-> "n", s |-> 0/1, m |-> BigNat, e |-> Int]  (-1)^s * m * 2^e      *)
(*   [c |-> "i", s |-> 0/1, ...]   infinity      [c |-> "q", ...]  NaN      *)
(* with zero being class "n" and m = <<>>.                                 *)
(***************************************************************************)
EXTENDS BigNat
F32 == [p |-> 24, eb |-> 8]
F64 == [p |-> 53, eb |-> 11]
Bias(f) == 2^(f.eb - 1) - 1
QMin(f) == 2 - 2^(f.eb - 1) - (f.p - 1)      \* exponent of the last place of subnormals

UN(s, m, e) == [c |-> "n", s |-> s, m |-> m, e |-> e]
UInf(s) == [c |-> "i", s |-> s, m |-> <<>>, e |-> 0]
UNaN == [c |-> "q", s |-> 0, m |-> <<>>, e |-> 0]
UIsZero(u) == u.c = "n" /\ u.m = <<>>

(* round (-1)^s * (m + sticky*epsilon) * 2^e *)
Round(f, s, m, e, sticky) ==
  IF m = <<>> THEN UN(s, <<>>, 0)
  ELSE LET q == NMax(NBitLen(m) + e - f.p, QMin(f))
           d == q - e
           r == IF d <= 0 THEN NShl(m, -d)
                ELSE LET h == NShr(m, d - 1)
                         t == NShr(h[1], 1)
                         half == NOdd(h[1])
                         up == half /\ (h[2] \/ sticky \/ NOdd(t[1]))
                     IN IF up THEN NAdd(t[1], <<1>>) ELSE t[1]
       IN IF NBitLen(r) + q > Bias(f) + 1 THEN UInf(s) ELSE UN(s, r, IF r = <<>> THEN 0 ELSE q)

UNeg(u) == IF u.c = "q" THEN u ELSE [u EXCEPT !.s = 1 - u.s]

UAdd(f, a, b) ==
  IF a.c = "q" \/ b.c = "q" THEN UNaN
  ELSE IF a.c = "i" THEN IF b.c = "i" /\ a.s # b.s THEN UNaN ELSE a
  ELSE IF b.c = "i" THEN b
  ELSE IF a.m = <<>> /\ b.m = <<>> THEN UN(IF a.s = 1 /\ b.s = 1 THEN 1 ELSE 0, <<>>, 0)
  ELSE IF a.m = <<>> THEN Round(f, b.s, b.m, b.e, FALSE)
  ELSE IF b.m = <<>> THEN Round(f, a.s, a.m, a.e, FALSE)
  ELSE LET e == IF a.e < b.e THEN a.e ELSE b.e
           x == NShl(a.m, a.e - e)
           y == NShl(b.m, b.e - e)
           k == NCmp(x, y)
       IN IF a.s = b.s THEN Round(f, a.s, NAdd(x, y), e, FALSE)
          ELSE IF k = 0 THEN UN(0, <<>>, 0)
          ELSE IF k > 0 THEN Round(f, a.s, NSub(x, y), e, FALSE)
          ELSE Round(f, b.s, NSub(y, x), e, FALSE)
USub(f, a, b) == UAdd(f, a, UNeg(b))
UMul(f, a, b) ==
  LET s == (a.s + b.s) % 2
  IN IF a.c = "q" \/ b.c = "q" THEN UNaN
     ELSE IF a.c = "i" \/ b.c = "i" THEN IF UIsZero(a) \/ UIsZero(b) THEN UNaN ELSE UInf(s)
     ELSE Round(f, s, NMul(a.m, b.m), a.e + b.e, FALSE)
UDiv(f, a, b) ==
  LET s == (a.s + b.s) % 2
  IN IF a.c = "q" \/ b.c = "q" THEN UNaN
     ELSE IF a.c = "i" THEN IF b.c = "i" THEN UNaN ELSE UInf(s)
     ELSE IF b.c = "i" THEN UN(s, <<>>, 0)
     ELSE IF b.m = <<>> THEN IF a.m = <<>> THEN UNaN ELSE UInf(s)
     ELSE IF a.m = <<>> THEN UN(s, <<>>, 0)
     ELSE LET k == NMax(0, f.p + 2 + NBitLen(b.m) - NBitLen(a.m))
              d == NDivMod(NShl(a.m, k), b.m)
          IN Round(f, s, d[1], a.e - b.e - k, d[2] # <<>>)
(* "lt" "eq" "gt" "un" *)
UCmp(a, b) ==
  IF a.c = "q" \/ b.c = "q" THEN "un"
  ELSE IF UIsZero(a) /\ UIsZero(b) THEN "eq"
  ELSE LET neg(u) == u.s = 1 /\ ~UIsZero(u)
           pos(u) == u.s = 0 /\ ~UIsZero(u)
           mag == IF a.c = "i" THEN (IF b.c = "i" THEN 0 ELSE 1)
                  ELSE IF b.c = "i" THEN -1
                  ELSE LET e == IF a.e < b.e THEN a.e ELSE b.e
                       IN NCmp(NShl(a.m, a.e - e), NShl(b.m, b.e - e))
       IN IF UIsZero(a) THEN (IF neg(b) THEN "gt" ELSE "lt")
          ELSE IF UIsZero(b) THEN (IF neg(a) THEN "lt" ELSE "gt")
          ELSE IF a.s # b.s THEN (IF a.s = 1 THEN "lt" ELSE "gt")
          ELSE IF mag = 0 THEN "eq"
          ELSE IF (mag > 0) = (a.s = 0) THEN "gt" ELSE "lt"
(* integer part, truncated towards zero: BigNat magnitude (finite numbers) *)
UTrunc(u) == IF u.e >= 0 THEN NShl(u.m, u.e) ELSE NShr(u.m, -u.e)[1]
UConv(f, u) == IF u.c = "n" THEN Round(f, u.s, u.m, u.e, FALSE) ELSE u

(* packed form: sequence <<sign, biased exponent, fraction BigNat>> *)
UEnc(f, u) ==
  IF u.c = "q" THEN <<0, 2^f.eb - 1, NShl(<<1>>, f.p - 2)>>
  ELSE IF u.c = "i" THEN <<u.s, 2^f.eb - 1, <<>>>>
  ELSE IF u.m = <<>> THEN <<u.s, 0, <<>>>>
  ELSE LET r == Round(f, u.s, u.m, u.e, FALSE)
           L == NBitLen(r.m)
       IN IF L < f.p THEN <<r.s, 0, r.m>>
          ELSE LET e == r.e + (L - 1) + Bias(f)
                   m == NShr(r.m, L - f.p)[1]
               IN <<r.s, e, NSub(m, NShl(<<1>>, f.p - 1))>>
UDec(f, t) ==
  IF t[2] = 2^f.eb - 1 THEN IF t[3] = <<>> THEN UInf(t[1]) ELSE UNaN
  ELSE IF t[2] = 0 THEN UN(t[1], t[3], IF t[3] = <<>> THEN 0 ELSE QMin(f))
  ELSE UN(t[1], NAdd(t[3], NShl(<<1>>, f.p - 1)), t[2] - Bias(f) - (f.p - 1))
=============================================================================
