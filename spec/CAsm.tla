-------------------------------- MODULE CAsm --------------------------------
(* The assembler.  An assembly program is a sequence of statements; the object
   file it is turned into is a set of sections, relocations and symbols.  The
   machine walks the statements, keeping a position in every section: each
   statement must account for the bytes at its position - an instruction by
   meaning to the processor (X64) exactly what is written, whatever encoding was
   chosen; data by value; padding by reaching the alignment and doing nothing.
   References are settled at the end, when all labels are known: a branch, a
   rip-relative operand or an address must denote its label plus offset, either
   by itself or through a relocation which the linker will apply.             *)
EXTENDS X64, FiniteSets, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES pid, i, cur, pos, lab, refs, used, bad, phase
vars == <<pid, i, cur, pos, lab, refs, used, bad, phase>>
P == Cases[pid]
St == P.st[i]

SecIdx(P0, n) == {j \in DOMAIN P0.secs : P0.secs[j].name = n}
Bytes(n) == LET s == SecIdx(P, n) IN IF s = {} THEN <<>> ELSE P.secs[CHOOSE j \in s : TRUE].bytes
Size(n) == LET s == SecIdx(P, n) IN IF s = {} THEN 0 ELSE P.secs[CHOOSE j \in s : TRUE].size
Align(n) == LET s == SecIdx(P, n) IN IF s = {} THEN 1 ELSE P.secs[CHOOSE j \in s : TRUE].align
Nobits(n) == n = ".bss"
Exec(n) == n = ".text" \/ n \in {P.exec[j] : j \in DOMAIN P.exec}
Pos(n) == IF n \in DOMAIN pos THEN pos[n] ELSE 0
Here == Pos(cur)
Move(n) == pos' = (cur :> (Here + n)) @@ pos

(* ---- declarations *)
Says(k, n) == \E j \in DOMAIN P.st : P.st[j].k = k /\ P.st[j].name = n
Weak(n) == Says("weak", n)
Comm(n) == Says("comm", n)
Global(n) == Says("glb", n)
Defined(n) == n \in DOMAIN lab

(* ---- instructions *)
Low(v, n) == [j \in 1..n |-> v[j]]
Shifts == {"shl", "shr", "sar"}
EqMem(a, e) == /\ a.v = e.v /\ a.g = e.g
               /\ \/ a.b = e.b /\ a.x = e.x /\ a.s = e.s
                  \/ a.s = 1 /\ e.s = 1 /\ a.b = e.x /\ a.x = e.b
EqOp(op, w, a, e, sym) ==
  /\ a.k = e.k
  /\ CASE a.k = "i" -> LET n == IF op \in Shifts \union {"int"} THEN 1 ELSE w \div 8 IN Low(a.v, n) = Low(e.v, n)
       [] a.k = "m" -> IF sym THEN a.b = 16 /\ e.b = 16 /\ a.x = -1 /\ a.g = e.g ELSE EqMem(a, e)
       [] a.k = "t" -> TRUE
       [] OTHER -> a.n = e.n
OpName(o) == IF o = "sal" THEN "shl" ELSE o
Matches(d, e) ==
  LET sym == e.lab # "" IN
  \/ /\ OpName(d.op) = e.op /\ d.w = e.w /\ Len(d.o) = Len(e.o)
     /\ \A j \in DOMAIN d.o : EqOp(e.op, e.w, d.o[j], e.o[j], sym)
  \/ /\ d.op = "test" /\ e.op = "test" /\ d.w = e.w /\ Len(d.o) = 2             \* it does not matter which is which
     /\ EqOp(e.op, e.w, d.o[1], e.o[2], FALSE) /\ EqOp(e.op, e.w, d.o[2], e.o[1], FALSE)
  \/ /\ d.op = "mov" /\ e.op = "mov" /\ d.w = 32 /\ e.w = 64                     \* the upper half is cleared
     /\ d.o[1].k = "i" /\ e.o[1].k = "i" /\ d.o[2].k = "r32" /\ e.o[2].k = "r64" /\ d.o[2].n = e.o[2].n
     /\ Low(d.o[1].v, 4) = Low(e.o[1].v, 4) /\ \A j \in 5..8 : e.o[1].v[j] = 0
  \/ /\ d.op = "movzx" /\ e.op = "movzx" /\ d.w = 32 /\ e.w = 64
     /\ d.o[1].k = e.o[1].k /\ d.o[1].n = e.o[1].n /\ d.o[2].k = "r32" /\ e.o[2].k = "r64" /\ d.o[2].n = e.o[2].n
Field(d) == LET fs == {j \in DOMAIN d.o : d.o[j].f # 0} IN IF fs = {} THEN 0 ELSE CHOOSE j \in fs : TRUE

(* ---- padding *)
RECURSIVE Nops(_, _, _)
Nops(bs, p, e) == IF p >= e THEN p = e
                  ELSE LET d == Decode(bs, p + 1) IN d.op = "nop" /\ Nops(bs, p + d.len, e)
PadOk(n, p, e) == IF Nobits(n) THEN TRUE
                  ELSE IF Exec(n) THEN Nops(Bytes(n), p, e)
                  ELSE \A j \in (p + 1)..e : At(Bytes(n), j) = 0
Up(p, n) == p + ((n - (p % n)) % n)

(* ---- expressions: the sum of a label, minus another, and a number *)
RECURSIVE Eval(_)
Trunc(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Eval(t) ==
  CASE t.k = "n" -> [p |-> "", m |-> "", c |-> t.v]
    [] t.k = "l" -> [p |-> t.name, m |-> "", c |-> 0]
    [] t.k = "neg" -> [p |-> "", m |-> "", c |-> -(Eval(t.a).c)]
    [] t.k = "pos" -> Eval(t.a)
    [] OTHER -> LET a == Eval(t.a)  b == Eval(t.b) IN
       CASE t.k = "+" -> [p |-> IF a.p # "" THEN a.p ELSE b.p, m |-> IF a.m # "" THEN a.m ELSE b.m, c |-> a.c + b.c]
         [] t.k = "-" -> [p |-> a.p, m |-> IF a.m # "" THEN a.m ELSE b.p, c |-> a.c - b.c]
         [] t.k = "*" -> [p |-> "", m |-> "", c |-> a.c * b.c]
         [] t.k = "/" -> [p |-> "", m |-> "", c |-> Trunc(a.c, b.c)]
Byte(v, j) == IF j > 4 THEN IF v < 0 THEN 255 ELSE 0 ELSE (v \div (CASE j = 1 -> 1 [] j = 2 -> 256 [] j = 3 -> 65536 [] OTHER -> 16777216)) % 256
LE(v, n) == [j \in 1..n |-> Byte(v, j)]
ToInt(v) == v[1] + 256 * v[2] + 65536 * v[3] + (IF v[4] >= 128 THEN v[4] - 256 ELSE v[4]) * 16777216

(* ---- references *)
RelAt(n, o) == {j \in DOMAIN P.rel : P.rel[j].sec = n /\ P.rel[j].off = o}
(* where a relocation points: relative to the label wanted, or "no" *)
Points(r, name, want) ==
  \/ r.sym = name /\ r.add = want
  \/ /\ r.sym # name \/ r.sym = "" 
     /\ Defined(name) /\ ~Weak(name) /\ ~Global(name) /\ r.symsec = lab[name].sec /\ r.symsec # ""
     /\ r.symval + r.add = lab[name].pos + want
PcRefOk(r) ==
  LET e == P.st[r.i]  js == RelAt(r.sec, r.fld) IN
  IF js = {} THEN /\ Defined(e.lab) /\ ~Weak(e.lab) /\ lab[e.lab].sec = r.sec
                  /\ ToInt(SX(Sub4(Bytes(r.sec), r.fld + 1, r.fs))) + r.end = lab[e.lab].pos + e.off
  ELSE LET q == P.rel[CHOOSE j \in js : TRUE] IN
       Cardinality(js) = 1 /\ r.fs = 4 /\ q.type \in {2, 4} /\ Points(q, e.lab, e.off - (r.end - r.fld))
DataRefOk(r) ==
  LET v == Eval(r.t)  js == RelAt(r.sec, r.fld)  bs == Sub4(Bytes(r.sec), r.fld + 1, r.fs) IN
  IF v.p = "" THEN js = {} /\ bs = LE(v.c, r.fs)
  ELSE IF v.m # "" THEN /\ js = {} /\ Defined(v.p) /\ Defined(v.m) /\ lab[v.p].sec = lab[v.m].sec
                        /\ bs = LE(v.c + lab[v.p].pos - lab[v.m].pos, r.fs)
  ELSE /\ Cardinality(js) = 1
       /\ LET q == P.rel[CHOOSE j \in js : TRUE] IN
            q.type = (IF r.fs = 8 THEN 1 ELSE 10) /\ r.fs \in {4, 8} /\ Points(q, v.p, v.c)
RefOk(r) == IF r.k = "pc" THEN PcRefOk(r) ELSE DataRefOk(r)
Covered == {j \in DOMAIN P.rel : \E m \in DOMAIN refs : refs[m].sec = P.rel[j].sec /\ refs[m].fld = P.rel[j].off}

(* ---- symbols *)
SymsOf(n) == {j \in DOMAIN P.syms : P.syms[j].name = n}
SymOk(n) ==
  IF ~Weak(n) /\ ~Global(n) THEN TRUE
  ELSE /\ Cardinality(SymsOf(n)) = 1
       /\ LET s == P.syms[CHOOSE j \in SymsOf(n) : TRUE] IN
            /\ s.bind = (IF Weak(n) THEN 2 ELSE 1)
            /\ IF ~Defined(n) THEN s.sec = ""
               ELSE IF lab[n].sec = "*COM*" THEN s.sec = "*COM*" /\ s.size = lab[n].pos /\ (lab[n].al > 1 => s.val = lab[n].al)
               ELSE s.sec = lab[n].sec /\ s.val = lab[n].pos
Names == {P.st[j].name : j \in {j \in DOMAIN P.st : P.st[j].k \in {"glb", "weak", "lab", "comm"}}}
LocalSyms == \A j \in DOMAIN P.syms : LET s == P.syms[j] IN
   (s.name # "" /\ s.bind = 0) => (s.name \in Names /\ ~Weak(s.name) /\ ~Global(s.name) /\ (s.name \in DOMAIN lab => s.sec = lab[s.name].sec /\ s.val = lab[s.name].pos))

Init == /\ pid \in DOMAIN Cases /\ i = 1 /\ cur = ".text" /\ pos = [n \in {} |-> 0] /\ lab = [n \in {} |-> 0]
        /\ refs = <<>> /\ used = [n \in {} |-> 1] /\ bad = "" /\ phase = "run"

Fail(why) == bad' = why /\ UNCHANGED <<cur, pos, lab, refs, used>>
Keep(x) == UNCHANGED <<bad, x>>

Section == St.k = "sec" /\ cur' = St.name /\ UNCHANGED <<pos, lab, refs, used, bad>>
Label == St.k = "lab" /\ lab' = (St.name :> [sec |-> cur, pos |-> Here]) @@ lab /\ UNCHANGED <<cur, pos, refs, used, bad>>
Declare == St.k \in {"glb", "loc", "weak", "other"} /\ UNCHANGED <<cur, pos, lab, refs, used, bad>>
Instruction ==
  /\ St.k = "ins"
  /\ LET d == Decode(Bytes(cur), Here + 1) IN
       IF ~Matches(d, St) THEN Fail("instruction")
       ELSE /\ Move(d.len) /\ UNCHANGED <<cur, lab, used, bad>>
            /\ IF St.lab = "" THEN UNCHANGED refs
               ELSE LET f == Field(d) IN
                    IF f = 0 THEN FALSE
                    ELSE refs' = Append(refs, [k |-> "pc", i |-> i, sec |-> cur, fld |-> Here + d.o[f].f, fs |-> d.o[f].fs, end |-> Here + d.len, t |-> 0])
Data ==
  /\ St.k = "dat"
  /\ Move(St.sz * Len(St.v)) /\ UNCHANGED <<cur, lab, used, bad>>
  /\ refs' = refs \o [j \in DOMAIN St.v |-> [k |-> "dat", i |-> i, sec |-> cur, fld |-> Here + St.sz * (j - 1), fs |-> St.sz, end |-> 0, t |-> St.v[j]]]
Raw ==
  /\ St.k = "raw"
  /\ IF Sub4(Bytes(cur), Here + 1, Len(St.v)) = St.v /\ Here + Len(St.v) <= Size(cur)
     THEN Move(Len(St.v)) /\ UNCHANGED <<cur, lab, refs, used, bad>>
     ELSE Fail("data")
Zero ==
  /\ St.k = "zero"
  /\ IF Nobits(cur) \/ \A j \in (Here + 1)..(Here + St.n) : At(Bytes(cur), j) = 0
     THEN Move(St.n) /\ UNCHANGED <<cur, lab, refs, used, bad>>
     ELSE Fail("zero")
AlignTo ==
  /\ St.k = "align"
  /\ IF PadOk(cur, Here, Up(Here, St.n)) /\ Up(Here, St.n) <= Size(cur)
     THEN /\ Move(Up(Here, St.n) - Here) /\ used' = (cur :> (IF cur \in DOMAIN used /\ used[cur] > St.n THEN used[cur] ELSE St.n)) @@ used
          /\ UNCHANGED <<cur, lab, refs, bad>>
     ELSE Fail("padding")
(* a common symbol is allocated by the linker; one that is not global, in the bss section, here *)
Common ==
  /\ St.k = "comm"
  /\ IF Global(St.name)
     THEN lab' = (St.name :> [sec |-> "*COM*", pos |-> St.n, al |-> St.al]) @@ lab /\ UNCHANGED <<cur, pos, refs, used, bad>>
     ELSE LET p == Up(Pos(".bss"), St.al) IN
          /\ lab' = (St.name :> [sec |-> ".bss", pos |-> p]) @@ lab
          /\ pos' = (".bss" :> (p + St.n)) @@ pos
          /\ used' = (".bss" :> (IF ".bss" \in DOMAIN used /\ used[".bss"] > St.al THEN used[".bss"] ELSE St.al)) @@ used
          /\ UNCHANGED <<cur, refs, bad>>
Step == /\ phase = "run" /\ i <= Len(P.st) /\ bad = ""
        /\ \/ Section \/ Label \/ Declare \/ Instruction \/ Data \/ Raw \/ Zero \/ AlignTo \/ Common
        /\ i' = IF bad' = "" THEN i + 1 ELSE i
        /\ UNCHANGED <<pid, phase>>
Verdict ==
  IF bad # "" THEN bad
  ELSE IF \E m \in DOMAIN refs : ~RefOk(refs[m]) THEN "reference"
  ELSE IF Covered # DOMAIN P.rel THEN "relocation for nothing"
  ELSE IF \E n \in DOMAIN pos : Size(n) < pos[n] THEN "section is too short"
  ELSE IF \E j \in DOMAIN P.secs : P.secs[j].size # Pos(P.secs[j].name) /\ ~(P.secs[j].name = ".bss" /\ \E m \in DOMAIN P.st : P.st[m].k = "comm") THEN "section has other contents"
  ELSE IF \E n \in DOMAIN used : Pos(n) > 0 /\ Align(n) % used[n] # 0 THEN "alignment of the section"
  ELSE IF \E n \in Names : ~SymOk(n) THEN "symbol"
  ELSE IF ~LocalSyms THEN "local symbol"
  ELSE ""
Where == IF bad # "" THEN i ELSE LET ms == {m \in DOMAIN refs : ~RefOk(refs[m])} IN IF ms = {} THEN 0 ELSE refs[CHOOSE m \in ms : \A o \in ms : m <= o].i
Finish == /\ phase = "run" /\ (i > Len(P.st) \/ bad # "")
          /\ phase' = "end" /\ UNCHANGED <<pid, i, cur, pos, lab, refs, used, bad>>
          /\ LET d == IF bad = "instruction" THEN ToString(Decode(Bytes(cur), Here + 1)) ELSE "" IN
             PrintT("@@" \o ToJson([pid |-> pid, why |-> Verdict, at |-> Where, got |-> d]))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == i >= 1 /\ phase \in {"run", "end"}
=============================================================================
