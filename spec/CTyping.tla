------------------------------ MODULE CTyping ------------------------------
(***************************************************************************)
(* Static types of C declarations and expressions, with the const          *)
(* qualifier.  A type is a record with kind k, qualifier q in {0, 1} and   *)
(*   [k |-> "p", to]  [k |-> "a", of, n]  [k |-> "fn", r, ps, va]          *)
(*   [k |-> "st", id]  or a scalar kind of CTypes.                         *)
(* A case is a list of declarations and a list of probes; each transition  *)
(* types one probe: the type of the expression as an lvalue (what typeof   *)
(* denotes), its type after lvalue conversion (what generic selection      *)
(* uses) and its size.                                                     *)
(***************************************************************************)
EXTENDS CTypes, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
BT(k) == [k |-> k, q |-> 0]
QPtr(t) == [k |-> "p", q |-> 0, to |-> t]
Unq(t) == [t EXCEPT !.q = 0]
RECURSIVE Qual(_, _)
Qual(t, q) == IF t.k = "a" THEN [t EXCEPT !.of = Qual(@, q)]
              ELSE IF t.k = "fn" THEN t ELSE [t EXCEPT !.q = MaxI(@, q)]
(* parameter adjustment; qualifiers of array types belong to the elements *)
RECURSIVE Norm(_)
Norm(t) == CASE t.k = "p" -> [t EXCEPT !.to = Norm(@)]
             [] t.k = "a" -> LET e == Norm(t.of) IN [t EXCEPT !.of = IF t.q = 1 THEN Qual(e, 1) ELSE e, !.q = 0]
             [] t.k = "fn" -> [t EXCEPT !.q = 0, !.r = Unq(Norm(@)),
                                 !.ps = [i \in DOMAIN t.ps |->
                                    LET p == Norm(t.ps[i])
                                    IN Unq(IF p.k = "a" THEN QPtr(p.of) ELSE IF p.k = "fn" THEN QPtr(p) ELSE p)]]
             [] OTHER -> t
Conv(t) == IF t.k = "a" THEN QPtr(t.of) ELSE IF t.k = "fn" THEN QPtr(t) ELSE Unq(t)
Prom(t) == IF IsInt(t) /\ Rank(t.k) < 3 THEN BT("i") ELSE t
Usual(g, a, b) == BT(UAC(g, a, b).k)
IsNullConst(e) == (e.k = "n" /\ e.z = 1 /\ IsInt(e.t)) \/ (e.k = "cast" /\ e.t.k = "p" /\ e.t.to.k = "v" /\ e.t.to.q = 0 /\ e.a.k = "n" /\ e.a.z = 1)
SizeT == BT("ul")
DiffT == BT("l")
RelK == {"==", "!=", "<", ">", "<=", ">="}
RECURSIVE MemT(_, _, _)
MemT(S, id, m) == LET ms == S[id].m
                      d == {i \in DOMAIN ms : ms[i].n = m}
                  IN IF d # {} THEN Norm(ms[CHOOSE i \in d : TRUE].t)
                     ELSE LET i == CHOOSE i \in DOMAIN ms : ms[i].n = "" /\ ms[i].t.k = "st" /\ (\E j \in DOMAIN S[ms[i].t.id].m : S[ms[i].t.id].m[j].n = m)
                          IN Qual(MemT(S, ms[i].t.id, m), ms[i].t.q)
RECURSIVE LT(_, _)
RT(x, e) == Conv(LT(x, e))
LT(x, e) ==
  CASE e.k = "v" -> x.env[e.n]
    [] e.k = "n" -> Unq(e.t)
    [] e.k = "str" -> [k |-> "a", q |-> 0, of |-> BT("c"), n |-> e.len + 1]
    [] e.k = "u" -> IF e.op = "!" THEN BT("i") ELSE Prom(RT(x, e.a))
    [] e.k = "b" -> LET a == RT(x, e.a)
                        b == RT(x, e.b)
                    IN IF e.op \in RelK THEN BT("i")
                       ELSE IF e.op \in {"<<", ">>"} THEN Prom(a)
                       ELSE IF a.k = "p" THEN IF b.k = "p" THEN DiffT ELSE a
                       ELSE IF b.k = "p" THEN b
                       ELSE Usual(x.g, a, b)
    [] e.k = "log" -> BT("i")
    [] e.k = "c" -> LET a == RT(x, e.a)
                        b == RT(x, e.b)
                    IN IF IsArith(a) /\ IsArith(b) THEN Usual(x.g, a, b)
                       ELSE IF a = b THEN a
                       ELSE IF a.k = "p" /\ IsNullConst(e.b) THEN a
                       ELSE IF b.k = "p" /\ IsNullConst(e.a) THEN b
                       ELSE IF a.to.k = "v" \/ b.to.k = "v" THEN QPtr([k |-> "v", q |-> MaxI(a.to.q, b.to.q)])
                       ELSE QPtr(Qual(a.to, MaxI(a.to.q, b.to.q)))
    [] e.k = "," -> RT(x, e.b)
    [] e.k \in {"=", "op=", "inc"} -> Unq(LT(x, e.a))
    [] e.k = "cast" -> Unq(Norm(e.t))
    [] e.k = "addr" -> QPtr(LT(x, e.a))
    [] e.k = "*" -> RT(x, e.a).to
    [] e.k = "[]" -> LET a == RT(x, e.a) IN IF a.k = "p" THEN a.to ELSE RT(x, e.b).to
    [] e.k = "." -> LET a == LT(x, e.a) IN Qual(MemT(x.S, a.id, e.m), a.q)
    [] e.k = "->" -> LET a == RT(x, e.a).to IN Qual(MemT(x.S, a.id, e.m), a.q)
    [] e.k = "call" -> RT(x, e.f).to.r
    [] e.k = "sz" -> SizeT
    [] e.k = "cl" -> Norm(e.t)

Ctx(c) == [g |-> c.g, S |-> c.structs, L |-> Layouts(c.g, c.structs, <<>>),
           env |-> [n \in DOMAIN c.vars |-> Norm(c.vars[n])]]
VARIABLES pid, pc, res
vars == <<pid, pc, res>>
Init == pid \in DOMAIN Cases /\ pc = 1 /\ res = <<>>
Probes == Cases[pid].probes
CtxOf == [p \in DOMAIN Cases |-> Ctx(Cases[p])]
Step == /\ pc >= 1 /\ pc <= Len(Probes)
        /\ LET x == CtxOf[pid]
               e == Probes[pc]
               l == LT(x, e)
           IN res' = Append(res, [lt |-> l, rt |-> Conv(l), size |-> IF l.k \in {"fn", "v"} THEN 0 ELSE SizeOf(x.g, x.L, l),
                                  align |-> IF l.k \in {"fn", "v"} THEN 0 ELSE AlignOf(x.g, x.L, l)])
        /\ pc' = pc + 1 /\ pid' = pid
Finish == /\ pc = Len(Probes) + 1 /\ pc' = 0
          /\ PrintT("@@" \o ToJson([pid |-> pid, res |-> res]))
          /\ UNCHANGED <<pid, res>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
(* every type produced is well formed *)
RECURSIVE WF(_)
WF(t) == CASE t.k = "p" -> WF(t.to)
           [] t.k = "a" -> t.q = 0 /\ t.of.k \notin {"fn", "v"} /\ WF(t.of)
           [] t.k = "fn" -> t.r.k \notin {"fn", "a"} /\ WF(t.r) /\ \A i \in DOMAIN t.ps : t.ps[i].k \notin {"fn", "a", "v"} /\ WF(t.ps[i])
           [] OTHER -> t.q \in {0, 1}
TypeOK == \A i \in DOMAIN res : WF(res[i].lt) /\ res[i].rt.k \notin {"fn", "a"} /\ res[i].rt.q = 0
=============================================================================
