------------------------------ MODULE MCFloats ------------------------------
(* Exhaustive validation of Floats on a 6-bit format (p = 3, 3 exponent
   bits): every operator on every pair of bit patterns is compared with the
   definition "the representable number nearest to the exact result, ties to
   even", stated over scaled integers.                                       *)
EXTENDS Floats, FiniteSets, TLC
F == [p |-> 3, eb |-> 3]
VARIABLES x, y
NB == 2^(F.p + F.eb)
Fld(n) == <<n \div (NB \div 2), (n \div 2^(F.p-1)) % 2^F.eb, NFromInt(n % 2^(F.p-1))>>
D(n) == UDec(F, Fld(n))
NToInt(a) == IF a = <<>> THEN 0 ELSE IF Len(a) = 1 THEN a[1] ELSE a[1] + Q * a[2]
(* all finite values scaled by 2^-QMin *)
Sc == -QMin(F)
Val(u) == (IF u.s = 1 THEN -1 ELSE 1) * NToInt(NShl(u.m, u.e + Sc))
Finite == {n \in 0..NB-1 : D(n).c = "n"}
FVals == {<<Val(D(n)), n>> : n \in Finite}
Vals == {t[1] : t \in FVals}
EvenVals == {t[1] : t \in {q \in FVals : q[2] % 2 = 0}}
DTab == [n \in 0..NB-1 |-> D(n)]
MaxFin == LET V == Vals IN CHOOSE v \in V : \A t \in V : t <= v
Ulp == LET V == Vals
           m == MaxFin
           W == V \ {m}
       IN m - (CHOOSE v \in W : \A t \in W : t <= v)
(* nearest: exact result is num/den (den > 0) in scaled units *)
A(n) == IF n < 0 THEN -n ELSE n
OkNearest(u, num, den) ==
  IF u.c = "i" THEN A(num) * 2 >= (2 * MaxFin + Ulp) * den /\ (u.s = 1) = (num < 0)
  ELSE /\ u.c = "n"
       /\ A(num) * 2 < (2 * MaxFin + Ulp) * den
       /\ Val(u) \in Vals
       /\ LET v == Val(u)
              err == A(v * den - num)
          IN \A t \in Vals : LET er2 == A(t * den - num) IN
               er2 > err \/ t = v \/ (er2 = err /\ v \in EvenVals)
Init == x \in 0..NB-1 /\ y = 0
Next == y < NB-1 /\ y' = y + 1 /\ x' = x
Spec == Init /\ [][Next]_<<x,y>>
a == DTab[x]
b == DTab[y]
Fin == a.c = "n" /\ b.c = "n"
S2 == 2^Sc
OkRT == a.c # "q" => UEnc(F, a) = Fld(x)
OkAdd == Fin => /\ OkNearest(UAdd(F,a,b), Val(a)+Val(b), 1)
                /\ OkNearest(USub(F,a,b), Val(a)-Val(b), 1)
OkMul == Fin => OkNearest(UMul(F,a,b), Val(a)*Val(b), S2)
OkDiv == (Fin /\ b.m # <<>>) => OkNearest(UDiv(F,a,b), (IF Val(b) < 0 THEN -1 ELSE 1) * Val(a)*S2, A(Val(b)))
OkCmp == Fin => UCmp(a,b) = (IF Val(a) < Val(b) THEN "lt" ELSE IF Val(a) > Val(b) THEN "gt" ELSE "eq")
OkSpecial == /\ (a.c = "q" \/ b.c = "q") => UAdd(F,a,b).c = "q" /\ UMul(F,a,b).c = "q" /\ UDiv(F,a,b).c = "q" /\ UCmp(a,b) = "un"
             /\ (a.c = "i" /\ b.c = "n") => UAdd(F,a,b) = a /\ UDiv(F,b,a).m = <<>> /\ UDiv(F,b,a).c = "n"
                                            /\ UCmp(a,b) = IF a.s = 1 THEN "lt" ELSE "gt"
             /\ (Fin /\ UIsZero(b) /\ ~UIsZero(a)) => UDiv(F,a,b).c = "i"
             /\ (Fin /\ UIsZero(b) /\ UIsZero(a)) => UDiv(F,a,b).c = "q"
OkTrunc == a.c = "n" => NToInt(UTrunc(a)) = A(Val(a)) \div S2
=============================================================================
