------------------------------ MODULE CMachine ------------------------------
(***************************************************************************)
(* The C abstract machine.  A program (record P) has                       *)
(*   tg      target data model            structs  struct table            *)
(*   globs   sequence of [n, t, i]  (i: initializer or [k |-> "none"])     *)
(*   funcs   record name -> [r, ps, va, body]                              *)
(*   main    sequence of top-level steps (statements)                      *)
(* A context x is [g, L, P].  A state s is                                 *)
(*   mem   sequence of blocks, each a sequence of bytes (-1: indeterminate) *)
(*   env   name -> [b, t]     out  observable words     ub  "" or reason    *)
(*   mode  n | brk | cont | ret | goto   lab, ret, va, fuel                 *)
(* A pointer is the word <<offset, block, 0, 0>>; functions are blocks      *)
(* FnBase + index.  Undefined or unspecified behaviour sets ub.             *)
(***************************************************************************)
EXTENDS CArith, SequencesExt

FnBase == 30000
None == [k |-> "none"]
UB(s, why) == IF s.ub = "" THEN [s EXCEPT !.ub = why] ELSE s
RV(v, s) == [v |-> v, s |-> s]
Val(t, w) == [t |-> t, w |-> w]
IntVal(n) == Val(TInt, FromInt(n))
OfRes(r, s) == RV(Val(r.t, r.w), IF r.ok THEN s ELSE UB(s, "arith"))

Sz(x, t) == SizeOf(x.g, x.L, t)
HasSub(q, e) == \E i \in DOMAIN q : q[i] = e

-----------------------------------------------------------------------------
(* memory *)
Alloc(s, n) == [s EXCEPT !.mem = Append(s.mem, [i \in 1..n |-> -1])]
AllocZ(s, n) == [s EXCEPT !.mem = Append(s.mem, [i \in 1..n |-> 0])]
InMem(s, b, o, n) == b >= 1 /\ b <= Len(s.mem) /\ o >= 0 /\ o + n <= Len(s.mem[b])
PtrW(b, o) == <<o, b, 0, 0>>

Loc(b, o, t) == [b |-> b, o |-> o, t |-> t, bw |-> -1]

(* promoted type of a bit-field *)
BfType(g, t, bw) == IF bw < 0 THEN t
                    ELSE IF t.k \in {"b"} THEN t
                    ELSE IF bw < 32 \/ (bw = 32 /\ IsSigned(t)) THEN IF t.k \in {"l", "ul", "ll", "ull"} THEN t ELSE TInt ELSE t

LoadB(s, b, o, n) == SubSeq(s.mem[b], o + 1, o + n)
Load(x, s, l) ==
  LET n == Sz(x, l.t)
  IN IF l.t.k = "a" THEN RV(Val(Ptr(l.t.of), PtrW(l.b, l.o)), s)
     ELSE IF l.t.k = "fn" THEN RV(Val(Ptr(l.t), PtrW(l.b, 0)), s)
     ELSE IF ~InMem(s, l.b, l.o, n) THEN RV(Val(l.t, IF l.t.k = "st" THEN [i \in 1..n |-> 0] ELSE W0), UB(s, "load"))
     ELSE LET by == LoadB(s, l.b, l.o, n)
          IN IF l.t.k = "st" THEN RV(Val(l.t, by), s)
             ELSE IF \E i \in 1..n : by[i] < 0 THEN RV(Val(l.t, W0), UB(s, "uninit"))
             ELSE LET w == FromBytes(by)
                  IN RV(Val(BfType(x.g, l.t, l.bw), IF IsInt(l.t) THEN ConvInt(x.g, l.t, w) ELSE w), s)

PutB(s, b, o, by) ==
  LET old == s.mem[b]
  IN [s EXCEPT !.mem[b] = SubSeq(old, 1, o) \o by \o SubSeq(old, o + Len(by) + 1, Len(old))]

(* truncation of w to a bit-field of bw bits *)
BfTrunc(t, bw, w) ==
  IF bw < 0 \/ bw = 64 THEN w
  ELSE IF t.k = "b" THEN w
  ELSE LET k == 64 - bw IN IF IsSigned(t) THEN Sar(Shl(w, k), k) ELSE Shr(Shl(w, k), k)

(* store value v (any scalar, or a struct of the same type) into l: value is the stored one *)
Store(x, s, l, v) ==
  LET n == Sz(x, l.t)
  IN IF ~InMem(s, l.b, l.o, n) THEN RV(v, UB(s, "store"))
     ELSE IF l.t.k = "st"
     THEN RV(v, IF v.t = l.t THEN PutB(s, l.b, l.o, v.w) ELSE UB(s, "structtype"))
     ELSE LET c == Conv(x.g, l.t, v)
              w == BfTrunc(l.t, l.bw, c.w)
          IN RV(Val(BfType(x.g, l.t, l.bw), w), IF c.ok THEN PutB(s, l.b, l.o, ToBytes(w, n)) ELSE UB(s, "conv"))

-----------------------------------------------------------------------------
(* static types of expressions: needs the environment only *)
Decay(t) == IF t.k = "a" THEN Ptr(t.of) ELSE IF t.k = "fn" THEN Ptr(t) ELSE t
RECURSIVE MemberAt(_, _, _)
MemberAt(x, id, path) == LET m == x.L[id].m[path[1]] IN
   IF Len(path) = 1 THEN m ELSE MemberAt(x, m.t.id, Tail(path))
RECURSIVE MemberOff(_, _, _)
MemberOff(x, id, path) == LET o == x.L[id].off[path[1]] IN
   IF Len(path) = 1 THEN o ELSE o + MemberOff(x, x.L[id].m[path[1]].t.id, Tail(path))

RECURSIVE TypeOf(_, _, _)
TypeOf(x, e, env) ==                   \* before decay
  CASE e.k \in {"n", "f"} -> e.t
    [] e.k = "v" -> IF e.n \in DOMAIN env THEN env[e.n].t ELSE TInt
    [] e.k = "u" -> IF e.op = "!" THEN TInt ELSE Promote(TypeOf(x, e.a, env))
    [] e.k = "b" -> LET a == Decay(TypeOf(x, e.a, env))
                        b == Decay(TypeOf(x, e.b, env))
                    IN IF e.op \in RelOps THEN TInt
                       ELSE IF IsPtr(a) THEN IF IsPtr(b) THEN T("l") ELSE a
                       ELSE IF IsPtr(b) THEN b
                       ELSE BinType(x.g, e.op, a, b)
    [] e.k \in {"land", "lor"} -> TInt
    [] e.k = "c" -> LET a == Decay(TypeOf(x, e.a, env))
                        b == Decay(TypeOf(x, e.b, env))
                    IN IF IsArith(a) /\ IsArith(b) THEN UAC(x.g, a, b)
                       ELSE IF IsPtr(b) /\ IsInt(a) THEN b
                       ELSE IF IsPtr(a) /\ IsPtr(b) /\ b.to.k = "v" /\ e.a.k # "n" THEN b
                       ELSE a
    [] e.k \in {"=", "op="} -> TypeOf(x, e.a, env)
    [] e.k = "inc" -> TypeOf(x, e.a, env)
    [] e.k = "cast" -> e.t
    [] e.k = "," -> Decay(TypeOf(x, e.b, env))
    [] e.k = "addr" -> Ptr(TypeOf(x, e.a, env))
    [] e.k = "*" -> LET t == Decay(TypeOf(x, e.a, env)) IN t.to
    [] e.k = "[]" -> LET t == Decay(TypeOf(x, e.a, env)) IN t.to
    [] e.k = "." -> LET t == TypeOf(x, e.a, env)
                        m == MemberAt(x, t.id, FindMember(x.L, t.id, e.m)) IN BfType(x.g, m.t, m.w)
    [] e.k = "->" -> LET t == Decay(TypeOf(x, e.a, env))
                         m == MemberAt(x, t.to.id, FindMember(x.L, t.to.id, e.m)) IN BfType(x.g, m.t, m.w)
    [] e.k = "call" -> LET t == Decay(TypeOf(x, e.f, env)) IN t.to.r
    [] e.k \in {"sz", "sze"} -> TULong
    [] e.k = "str" -> Arr(T("c"), Len(e.b) + 1)
    [] e.k = "cl" -> e.t
    [] e.k = "va" -> e.t

-----------------------------------------------------------------------------
(* Initializers (the rule of 6.7.9): an initializer is [k |-> "ie", e] or   *)
(* [k |-> "il", l] with items [d |-> designators, i |-> initializer]; a     *)
(* designator is [m |-> name] or [x |-> index].  A path addresses a         *)
(* subobject of the object initialised by the innermost brace.              *)
SubCount(x, t) == IF t.k = "a" THEN t.n ELSE IF x.L[t.id].u THEN 1 ELSE Len(x.L[t.id].m)
(* unnamed bit-fields do not take part *)
Skipped(x, t, i) == t.k = "st" /\ i <= Len(x.L[t.id].m) /\ x.L[t.id].m[i].n = "" /\ x.L[t.id].m[i].w >= 0
RECURSIVE FirstFrom(_, _, _)
FirstFrom(x, t, i) == IF Skipped(x, t, i) THEN FirstFrom(x, t, i + 1) ELSE i
(* path elements are 1-based *)
RECURSIVE SubObj(_, _, _, _, _)
SubObj(x, t, o, bw, path) ==
  IF path = <<>> THEN [t |-> t, o |-> o, bw |-> bw]
  ELSE IF t.k = "a" THEN SubObj(x, t.of, o + (path[1] - 1) * Sz(x, t.of), -1, Tail(path))
  ELSE LET L == x.L[t.id] IN SubObj(x, L.m[path[1]].t, o + L.off[path[1]], L.m[path[1]].w, Tail(path))
RECURSIVE NextPath(_, _, _)
NextPath(x, t, path) ==                \* <<>>: past the end of the braced object
  IF path = <<>> THEN <<>>
  ELSE LET par == SubSeq(path, 1, Len(path) - 1)
           pt == SubObj(x, t, 0, -1, par).t
           nx == IF pt.k = "st" /\ x.L[pt.id].u THEN 1000000 ELSE FirstFrom(x, pt, path[Len(path)] + 1)
       IN IF (pt.k = "a" /\ pt.n < 0) \/ nx <= SubCount(x, pt) THEN Append(par, nx)
          ELSE NextPath(x, t, par)
IsCharArr(t) == t.k = "a" /\ t.of.k \in {"c", "sc", "uc"}
RECURSIVE Descend(_, _, _, _, _)
Descend(x, t, path, e, env) ==         \* brace elision: go down to the subobject e initializes
  LET so == SubObj(x, t, 0, -1, path)
  IN IF so.t.k = "a" THEN IF e.k = "str" /\ IsCharArr(so.t) THEN path ELSE Descend(x, t, Append(path, 1), e, env)
     ELSE IF so.t.k = "st" THEN IF TypeOf(x, e, env) = so.t THEN path
                                ELSE Descend(x, t, Append(path, FirstFrom(x, so.t, 1)), e, env)
     ELSE path
RECURSIVE DesPath(_, _, _, _)
DesPath(x, t, path, d) ==
  IF d = <<>> THEN path
  ELSE IF "m" \in DOMAIN d[1]
  THEN DesPath(x, t, path \o FindMember(x.L, SubObj(x, t, 0, -1, path).t.id, d[1].m), Tail(d))
  ELSE DesPath(x, t, Append(path, d[1].x + 1), Tail(d))

(* an initialization is a sequence of actions [o, t, bw, e] (e = None: zero) *)
RECURSIVE InitActs(_, _, _, _, _)
RECURSIVE InitItems(_, _, _, _, _, _, _, _)
InitActs(x, t, o, init, env) ==
  IF init.k = "ie"
  THEN <<[o |-> o, t |-> t, bw |-> -1, e |-> init.e]>>
  ELSE IF ~IsAgg(t) THEN IF init.l = <<>> THEN <<[o |-> o, t |-> t, bw |-> -1, e |-> None]>>
                         ELSE InitActs(x, t, o, init.l[1].i, env)
  ELSE IF IsCharArr(t) /\ Len(init.l) = 1 /\ init.l[1].i.k = "ie" /\ init.l[1].i.e.k = "str" /\ init.l[1].d = <<>>
  THEN InitActs(x, t, o, init.l[1].i, env)
  ELSE <<[o |-> o, t |-> t, bw |-> -1, e |-> None]>> \o InitItems(x, t, o, init.l, 1, <<FirstFrom(x, t, 1)>>, env, <<>>)
InitItems(x, t, o, items, i, path, env, acc) ==
  IF i > Len(items) THEN acc
  ELSE LET it == items[i]
           p0 == IF it.d # <<>> THEN DesPath(x, t, <<>>, it.d) ELSE path
           p1 == IF it.i.k = "ie" THEN Descend(x, t, p0, it.i.e, env) ELSE p0
           so == SubObj(x, t, o, -1, p1)
           acts == IF it.i.k = "ie" THEN <<[o |-> so.o, t |-> so.t, bw |-> so.bw, e |-> it.i.e]>>
                   ELSE IF so.bw >= 0 THEN <<[o |-> so.o, t |-> so.t, bw |-> so.bw, e |-> it.i.l[1].i.e]>>
                   ELSE InitActs(x, so.t, so.o, it.i, env)
       IN InitItems(x, t, o, items, i + 1, NextPath(x, t, p1), env, acc \o acts)

(* number of elements of an array of unknown bound given its initializer *)
RECURSIVE MaxIdx(_, _, _, _, _, _, _)
MaxIdx(x, t, items, i, path, env, mx) ==
  IF i > Len(items) THEN mx
  ELSE LET it == items[i]
           p0 == IF it.d # <<>> THEN DesPath(x, t, <<>>, it.d) ELSE path
           p1 == IF it.i.k = "ie" THEN Descend(x, t, p0, it.i.e, env) ELSE p0
       IN MaxIdx(x, t, items, i + 1, NextPath(x, t, p1), env, MaxI(mx, p1[1]))
DeclType(x, t, init, env) ==
  IF t.k = "a" /\ t.n < 0
  THEN IF init.k = "ie" THEN Arr(t.of, Len(init.e.b) + 1)
       ELSE IF IsCharArr(t) /\ Len(init.l) = 1 /\ init.l[1].i.k = "ie" /\ init.l[1].i.e.k = "str"
       THEN Arr(t.of, Len(init.l[1].i.e.b) + 1)
       ELSE Arr(t.of, MaxIdx(x, t, init.l, 1, <<1>>, env, 0))
  ELSE t

-----------------------------------------------------------------------------
(* expressions *)
RECURSIVE Eval(_, _, _)
RECURSIVE LEval(_, _, _)
RECURSIVE CallFn(_, _, _, _)
RECURSIVE Exec(_, _, _)
RECURSIVE EvalArgs(_, _, _, _, _)
RECURSIVE EvalArgsRev(_, _, _, _, _)
RECURSIVE RunActs(_, _, _, _, _)
RECURSIVE ExecSeq(_, _, _, _)
RECURSIVE LoopW(_, _, _)
RECURSIVE LoopD(_, _, _)
RECURSIVE LoopF(_, _, _)

Im(e) == IF "im" \in DOMAIN e THEN e.im ELSE 0
Same(s1, s2) == s1.mem = s2.mem /\ s1.out = s2.out /\ s1.ub = s2.ub

(* expressions whose value no side effect of another operand can change *)
RECURSIVE Stable(_)
Stable(e) == \/ e.k \in {"n", "f", "sz"}
             \/ e.k \in {"cast", "u"} /\ Stable(e.a)
             \/ e.k = "b" /\ Stable(e.a) /\ Stable(e.b)
             \/ e.k = "addr" /\ (e.a.k = "v" \/ (e.a.k = "[]" /\ e.a.a.k = "v" /\ Stable(e.a.b)))
(* evaluate two operands; both orders must agree, else the result is unspecified *)
Pair(x, EA(_,_,_), a, EB(_,_,_), b, s) ==
  LET ra == EA(x, a, s)
      rb == EB(x, b, ra.s)
      ia == Im(a)
      ib == Im(b)
  IN IF (ia = 0 /\ ib = 0) \/ Stable(a) \/ Stable(b) THEN [a |-> ra.v, b |-> rb.v, s |-> rb.s]
     ELSE IF ia = 2 /\ ib = 2 THEN [a |-> ra.v, b |-> rb.v, s |-> UB(rb.s, "unseq")]
     ELSE LET qb == EB(x, b, s)
              qa == EA(x, a, qb.s)
          IN [a |-> ra.v, b |-> rb.v,
              s |-> IF qa.v = ra.v /\ qb.v = rb.v /\ Same(qa.s, rb.s) THEN rb.s ELSE UB(rb.s, "unspec")]

(* pointer arithmetic: offset in elements; result must stay inside the block *)
PtrAdd(x, v, w, s) ==
  LET n == Sz(x, v.t.to)
      k == IF IsNeg(w) THEN -ToNat(Neg(w)) ELSE ToNat(w)
      small == SmallNat(Abs(w)) /\ k < 70000 /\ k > -70000
      b == v.w[2]
      o == v.w[1] + k * n
  IN IF ~small \/ b < 1 \/ b > Len(s.mem) THEN RV(v, IF small /\ k = 0 THEN s ELSE UB(s, "ptradd"))
     ELSE IF o < 0 \/ o > Len(s.mem[b]) THEN RV(v, UB(s, "ptradd"))
     ELSE RV(Val(v.t, PtrW(b, o)), s)

BinVals(x, op, va, vb, s) ==
  IF IsArith(va.t) /\ IsArith(vb.t) THEN OfRes(ArithBin(x.g, op, va, vb), s)
  ELSE IF op \in RelOps THEN
    IF op = "==" THEN RV(Val(TInt, BoolW(va.w = vb.w)), s)
    ELSE IF op = "!=" THEN RV(Val(TInt, BoolW(va.w # vb.w)), s)
    ELSE IF IsPtr(va.t) /\ IsPtr(vb.t) /\ va.w[2] = vb.w[2]
         THEN OfRes(IntBin(x.g, op, T("ull"), va.w, vb.w), s)
    ELSE RV(Val(TInt, W0), UB(s, "ptrcmp"))
  ELSE IF op = "+" /\ IsPtr(va.t) THEN PtrAdd(x, va, vb.w, s)
  ELSE IF op = "+" THEN PtrAdd(x, vb, va.w, s)
  ELSE IF op = "-" /\ IsPtr(va.t) /\ ~IsPtr(vb.t) THEN PtrAdd(x, va, Neg(vb.w), s)
  ELSE IF op = "-" /\ va.w[2] = vb.w[2]
       THEN RV(Val(T("l"), FromInt((va.w[1] - vb.w[1]) \div Sz(x, va.t.to))), s)
  ELSE RV(Val(TInt, W0), UB(s, "ptrop"))

LocOf(x, v, s) == RV(Loc(v.w[2], v.w[1], v.t.to), IF v.w[2] = 0 THEN UB(s, "null") ELSE s)

LEval(x, e, s) ==                      \* v is a location
  CASE e.k = "v" -> IF e.n \in DOMAIN s.env THEN LET r == s.env[e.n] IN RV(Loc(r.b, 0, r.t), s)
                    ELSE RV(Loc(0, 0, TInt), UB(s, "undeclared"))
    [] e.k = "*" -> LET r == Eval(x, e.a, s) IN LocOf(x, r.v, r.s)
    [] e.k = "[]" -> LET p == Pair(x, Eval, e.a, Eval, e.b, s)
                         r == BinVals(x, "+", p.a, p.b, p.s)
                     IN LocOf(x, r.v, r.s)
    [] e.k \in {".", "->"} ->
         LET r == IF e.k = "." THEN LEval(x, e.a, s) ELSE LET q == Eval(x, e.a, s) IN LocOf(x, q.v, q.s)
             l == r.v
             path == FindMember(x.L, l.t.id, e.m)
             m == MemberAt(x, l.t.id, path)
         IN RV([b |-> l.b, o |-> l.o + MemberOff(x, l.t.id, path), t |-> m.t, bw |-> m.w], r.s)
    [] e.k = "str" -> \* a fresh read-only array
         LET t == Arr(T("c"), Len(e.b) + 1)
             s1 == [s EXCEPT !.mem = Append(s.mem, Append(e.b, 0))]
         IN RV(Loc(Len(s1.mem), 0, t), s1)
    [] e.k = "cl" -> LET t == DeclType(x, e.t, e.i, s.env)
                         s1 == Alloc(s, Sz(x, t))
                         b == Len(s1.mem)
                         s2 == RunActs(x, b, InitActs(x, t, 0, e.i, s.env), 1, s1)
                     IN RV(Loc(b, 0, t), s2)
    [] e.k = "c" -> LET c == Eval(x, e.c, s) IN IF Truth(c.v) THEN LEval(x, e.a, c.s) ELSE LEval(x, e.b, c.s)
    [] OTHER -> \* rvalue of struct type used for member access
         LET r == Eval(x, e, s)
             s1 == Alloc(r.s, Sz(x, r.v.t))
             b == Len(s1.mem)
         IN RV(Loc(b, 0, r.v.t), Store(x, s1, Loc(b, 0, r.v.t), r.v).s)

(* assignment: the stored-to location must not have been changed by a direct
   side effect of the right operand *)
AssignConflict(x, e, l, s0, s1) ==
  /\ Im(e) = 2
  /\ LET n == Sz(x, l.t) IN
       /\ InMem(s0, l.b, l.o, n) /\ InMem(s1, l.b, l.o, n)
       /\ LoadB(s0, l.b, l.o, n) # LoadB(s1, l.b, l.o, n)

FnIndex(x, name) == CHOOSE i \in DOMAIN x.P.fnames : x.P.fnames[i] = name

RealT(x, l) == IF l.bw >= 0 THEN l.t ELSE l.t

Eval(x, e, s) ==
  CASE e.k \in {"n", "f"} -> RV(Val(e.t, e.w), s)
    [] e.k \in {"v", "*", "[]", ".", "->", "str", "cl"} ->
         LET r == LEval(x, e, s) IN Load(x, r.s, r.v)
    [] e.k = "u" -> LET r == Eval(x, e.a, s)
                    IN IF IsArith(r.v.t) THEN OfRes(ArithUn(x.g, e.op, r.v), r.s)
                       ELSE RV(Val(TInt, BoolW(~Truth(r.v))), r.s)        \* !pointer
    [] e.k = "b" -> LET p == Pair(x, Eval, e.a, Eval, e.b, s) IN BinVals(x, e.op, p.a, p.b, p.s)
    [] e.k = "land" -> LET a == Eval(x, e.a, s) IN
         IF ~Truth(a.v) THEN RV(IntVal(0), a.s)
         ELSE LET b == Eval(x, e.b, a.s) IN RV(Val(TInt, BoolW(Truth(b.v))), b.s)
    [] e.k = "lor" -> LET a == Eval(x, e.a, s) IN
         IF Truth(a.v) THEN RV(IntVal(1), a.s)
         ELSE LET b == Eval(x, e.b, a.s) IN RV(Val(TInt, BoolW(Truth(b.v))), b.s)
    [] e.k = "c" -> LET c == Eval(x, e.c, s)
                        t == TypeOf(x, e, s.env)
                        r == IF Truth(c.v) THEN Eval(x, e.a, c.s) ELSE Eval(x, e.b, c.s)
                    IN IF t.k \in {"st", "v"} THEN r ELSE OfRes(Conv(x.g, t, r.v), r.s)
    [] e.k = "," -> LET a == Eval(x, e.a, s) IN Eval(x, e.b, a.s)
    [] e.k = "=" -> LET p == Pair(x, LEval, e.a, Eval, e.b, s)
                        r == Store(x, p.s, p.a, p.b)
                    IN RV(r.v, IF AssignConflict(x, e.b, p.a, s, p.s) THEN UB(r.s, "unseq") ELSE r.s)
    [] e.k = "op=" -> LET p == Pair(x, LEval, e.a, Eval, e.b, s)
                          old == Load(x, p.s, p.a)
                          r == BinVals(x, e.op, old.v, p.b, old.s)
                          q == Store(x, r.s, p.a, r.v)
                      IN RV(q.v, IF Im(e.b) = 2 /\ AssignConflict(x, e.b, p.a, s, p.s) THEN UB(q.s, "unseq")
                                 ELSE IF Im(e.b) = 1 /\ InMem(s, p.a.b, p.a.o, Sz(x, p.a.t))
                                         /\ LoadB(s, p.a.b, p.a.o, Sz(x, p.a.t)) # LoadB(p.s, p.a.b, p.a.o, Sz(x, p.a.t))
                                      THEN UB(q.s, "unspec") ELSE q.s)
    [] e.k = "inc" -> LET l == LEval(x, e.a, s)
                          old == Load(x, l.s, l.v)
                          r == BinVals(x, e.op, old.v, IntVal(1), old.s)
                          q == Store(x, r.s, l.v, r.v)
                      IN RV(IF e.pre THEN q.v ELSE old.v, q.s)
    [] e.k = "cast" -> LET r == Eval(x, e.a, s) IN
         IF e.t.k = "v" THEN RV(Val(e.t, W0), r.s) ELSE OfRes(Conv(x.g, e.t, r.v), r.s)
    [] e.k = "addr" -> LET l == LEval(x, e.a, s) IN RV(Val(Ptr(l.v.t), PtrW(l.v.b, l.v.o)), l.s)
    [] e.k = "sz" -> RV(Val(TULong, FromInt(Sz(x, e.t))), s)
    [] e.k = "sze" -> RV(Val(TULong, FromInt(Sz(x, TypeOf(x, e.a, s.env)))), s)
    [] e.k = "va" -> LET i == s.vai IN
         IF i >= Len(s.va) THEN RV(Val(e.t, W0), UB(s, "va"))
         ELSE LET v == s.va[i + 1] IN
              RV(IF v.t = e.t THEN v ELSE Val(e.t, IF e.t.k = "st" THEN <<>> ELSE W0),
                 IF v.t = e.t THEN [s EXCEPT !.vai = i + 1] ELSE UB(s, "vatype"))
    [] e.k = "call" ->
         LET f == Eval(x, e.f, s)
             a == EvalArgs(x, e.a, 1, f.s, <<>>)
             rev == IF \E i \in DOMAIN e.a : Im(e.a[i]) > 0 /\ \E j \in DOMAIN e.a : j # i /\ ~Stable(e.a[j])
                    THEN EvalArgsRev(x, e.a, Len(e.a), f.s, <<>>) ELSE a
             two == \E i, j \in DOMAIN e.a : i < j /\ Im(e.a[i]) = 2 /\ Im(e.a[j]) = 2
             ok == ~two /\ rev.v = a.v /\ Same(rev.s, a.s)
         IN IF f.v.w[2] < FnBase THEN RV(IntVal(0), UB(a.s, "badcall"))
            ELSE CallFn(x, x.P.fnames[f.v.w[2] - FnBase], a.v, IF ok THEN a.s ELSE UB(a.s, "unspec"))

EvalArgs(x, as, i, s, acc) ==
  IF i > Len(as) THEN RV(acc, s)
  ELSE LET r == Eval(x, as[i], s) IN EvalArgs(x, as, i + 1, r.s, Append(acc, r.v))
EvalArgsRev(x, as, i, s, acc) ==
  IF i = 0 THEN RV(acc, s)
  ELSE LET r == Eval(x, as[i], s) IN EvalArgsRev(x, as, i - 1, r.s, <<r.v>> \o acc)

ZeroVal(x, t) == Val(t, IF t.k = "st" THEN [i \in 1..Sz(x, t) |-> 0] ELSE W0)

(* default argument promotions *)
DefProm(x, v) == IF v.t.k = "f" THEN LET r == Conv(x.g, TDouble, v) IN Val(r.t, r.w)
                 ELSE IF IsInt(v.t) THEN Val(Promote(v.t), v.w) ELSE v

RECURSIVE BindParams(_, _, _, _, _)
BindParams(x, ps, args, i, s) ==
  IF i > Len(ps) THEN s
  ELSE LET s1 == Alloc(s, Sz(x, ps[i].t))
           b == Len(s1.mem)
           s2 == Store(x, s1, Loc(b, 0, ps[i].t), args[i]).s
       IN BindParams(x, ps, args, i + 1, [s2 EXCEPT !.env = (ps[i].n :> [b |-> b, t |-> ps[i].t]) @@ @])

CallFn(x, name, args, s) ==
  LET f == x.P.funcs[name]
      np == Len(f.ps)
  IN IF s.ub # "" \/ s.depth > 60 \/ s.fuel <= 0 THEN RV(ZeroVal(x, f.r), UB(s, "fuel"))
     ELSE IF Len(args) < np \/ (~f.va /\ Len(args) > np) THEN RV(ZeroVal(x, f.r), UB(s, "arity"))
     ELSE LET n0 == Len(s.mem)
              s1 == [s EXCEPT !.env = x.E, !.fuel = @ - 1, !.depth = @ + 1,
                              !.va = [i \in 1..(Len(args) - np) |-> DefProm(x, args[np + i])], !.vai = 0]
              s2 == BindParams(x, f.ps, args, 1, s1)
              s3 == Exec(x, f.body, s2)
              ret == IF s3.mode = "ret" THEN s3.ret ELSE None
              s4 == [s3 EXCEPT !.env = s.env, !.mode = "n", !.lab = "", !.ret = None, !.depth = s.depth,
                               !.va = s.va, !.vai = s.vai, !.mem = SubSeq(@, 1, n0)]
          IN IF f.r.k = "v" THEN RV(Val(f.r, W0), s4)
             ELSE IF "k" \in DOMAIN ret THEN RV(ZeroVal(x, f.r), UB(s4, "noret"))
             ELSE IF f.r.k = "st" THEN RV(ret, s4)
             ELSE OfRes(Conv(x.g, f.r, ret), s4)

-----------------------------------------------------------------------------
(* run initialization actions on block b *)
StrPad(q, n) == [i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE 0]
RunActs(x, b, acts, i, s) ==
  IF i > Len(acts) \/ s.ub # "" THEN s
  ELSE LET a == acts[i]
           n == Sz(x, a.t)
       IN IF ~InMem(s, b, a.o, n) THEN UB(s, "init")
          ELSE IF a.e.k = "none" THEN RunActs(x, b, acts, i + 1, PutB(s, b, a.o, [j \in 1..n |-> 0]))
          ELSE IF a.e.k = "str" /\ IsCharArr(a.t)
          THEN IF Len(a.e.b) > n THEN UB(s, "strinit")
               ELSE RunActs(x, b, acts, i + 1, PutB(s, b, a.o, StrPad(a.e.b, n)))
          ELSE LET r == Eval(x, a.e, s)
               IN RunActs(x, b, acts, i + 1,
                          Store(x, r.s, [b |-> b, o |-> a.o, t |-> a.t, bw |-> a.bw], r.v).s)

-----------------------------------------------------------------------------
(* statements; every statement that contains labels has ls (their names)    *)
HasLabel(st, lab) == "ls" \in DOMAIN st /\ HasSub(st.ls, lab)
Seeking(s) == s.mode = "goto"
Burn(s) == IF s.fuel <= 0 THEN UB(s, "fuel") ELSE [s EXCEPT !.fuel = @ - 1]

Declare(x, d, s) ==                    \* storage without initialization
  IF "sg" \in DOMAIN d THEN [s EXCEPT !.env = (d.n :> s.env[d.sg]) @@ @]
  ELSE IF "vn" \in DOMAIN d THEN s
  ELSE LET t == DeclType(x, d.t, d.i, s.env)
           s1 == Alloc(s, Sz(x, t))
       IN [s1 EXCEPT !.env = (d.n :> [b |-> Len(s1.mem), t |-> t]) @@ @]

ExecDecl(x, d, s) ==
  IF "sg" \in DOMAIN d THEN Declare(x, d, s)
  ELSE IF "vn" \in DOMAIN d THEN        \* variable-length array
    LET r == Eval(x, d.vn, s)
        n == r.v.w
        t == Arr(d.t, ToNat(n))
    IN IF ~SmallNat(n) \/ IsZero(n) \/ ToNat(n) > 500 THEN UB(r.s, "vla")
       ELSE LET s1 == Alloc(r.s, Sz(x, t))
            IN [s1 EXCEPT !.env = (d.n :> [b |-> Len(s1.mem), t |-> t]) @@ @]
  ELSE LET s1 == Declare(x, d, s)
           l == s1.env[d.n]
       IN IF d.i.k = "none" THEN s1 ELSE RunActs(x, l.b, InitActs(x, l.t, 0, d.i, s1.env), 1, s1)

(* after a loop body: which way on? *)
BodyDone(s) == IF s.mode = "cont" THEN [s EXCEPT !.mode = "n"] ELSE s
LoopDone(s) == IF s.mode = "brk" THEN [s EXCEPT !.mode = "n"] ELSE s

LoopW(x, st, s) ==                     \* at the controlling expression
  LET s0 == Burn(s)
      c == Eval(x, st.c, s0)
  IN IF s0.ub # "" \/ c.s.ub # "" THEN UB(c.s, "fuel")
     ELSE IF ~Truth(c.v) THEN c.s
     ELSE LET b == BodyDone(Exec(x, st.b, c.s))
          IN IF b.mode = "n" /\ b.ub = "" THEN LoopW(x, st, b) ELSE LoopDone(b)
LoopD(x, st, s) ==                     \* at the body
  LET b == BodyDone(Exec(x, st.b, Burn(s)))
  IN IF b.mode # "n" \/ b.ub # "" THEN LoopDone(b)
     ELSE LET c == Eval(x, st.c, b) IN IF Truth(c.v) /\ c.s.ub = "" THEN LoopD(x, st, c.s) ELSE c.s
ForStep(x, st, s) == IF "st" \in DOMAIN st THEN Eval(x, st.st, s).s ELSE s
LoopF(x, st, s) ==
  LET s0 == Burn(s)
      c == IF "c" \in DOMAIN st THEN Eval(x, st.c, s0) ELSE RV(IntVal(1), s0)
  IN IF s0.ub # "" \/ c.s.ub # "" THEN UB(c.s, "fuel")
     ELSE IF ~Truth(c.v) THEN c.s
     ELSE LET b == BodyDone(Exec(x, st.b, c.s))
          IN IF b.mode = "n" /\ b.ub = "" THEN LoopF(x, st, ForStep(x, st, b)) ELSE LoopDone(b)

ExecSeq(x, items, i, s) ==
  IF i > Len(items) \/ s.ub # "" \/ s.mode \in {"brk", "cont", "ret"} THEN s
  ELSE ExecSeq(x, items, i + 1, Exec(x, items[i], s))

RECURSIVE BlockLoop(_, _, _)
BlockLoop(x, st, s) ==                 \* a jump to an earlier label restarts the scan
  LET r == ExecSeq(x, st.l, 1, s)
  IN IF Seeking(r) /\ r.ub = "" /\ HasLabel(st, r.lab) THEN BlockLoop(x, st, Burn(r)) ELSE r

Arrive(s) == [s EXCEPT !.mode = "n", !.lab = ""]
GoTo(s, lab) == [s EXCEPT !.mode = "goto", !.lab = lab]

(* label of the matching case; cases: sequence of [v |-> word, l |-> label] *)
SwitchTarget(x, st, v) ==
  LET t == Promote(v.t)
      w == ConvInt(x.g, t, v.w)
      m == {i \in DOMAIN st.cases : ConvInt(x.g, t, st.cases[i].v) = w}
  IN IF m # {} THEN st.cases[CHOOSE i \in m : TRUE].l ELSE st.dflt

Exec(x, st, s) ==
  IF s.ub # "" THEN s
  ELSE IF Seeking(s) /\ ~HasLabel(st, s.lab)
  THEN IF st.k = "decl" THEN Declare(x, st, s) ELSE s
  ELSE CASE st.k = "e" -> Eval(x, st.e, s).s
    [] st.k = "pr" -> LET r == Eval(x, st.e, s) IN
         [r.s EXCEPT !.out = Append(@, [c |-> IF r.v.t.k \in {"f", "d", "ld"} THEN r.v.t.k ELSE "i", w |-> r.v.w]), !.ub = IF IsArith(r.v.t) \/ r.s.ub # "" THEN @ ELSE "prtype"]
    [] st.k = "decl" -> ExecDecl(x, st, s)
    [] st.k = "block" ->
         LET r == BlockLoop(x, st, s) IN [r EXCEPT !.env = s.env, !.mem = SubSeq(@, 1, Len(s.mem))]
    [] st.k = "if" ->
         IF Seeking(s) THEN IF HasLabel(st.a, s.lab) THEN Exec(x, st.a, s) ELSE Exec(x, st.b, s)
         ELSE LET c == Eval(x, st.c, s) IN
              IF Truth(c.v) THEN Exec(x, st.a, c.s)
              ELSE IF "b" \in DOMAIN st THEN Exec(x, st.b, c.s) ELSE c.s
    [] st.k = "while" ->
         IF Seeking(s) THEN LET b == BodyDone(Exec(x, st.b, s)) IN
              IF b.mode = "n" /\ b.ub = "" THEN LoopW(x, st, b) ELSE LoopDone(b)
         ELSE LoopW(x, st, s)
    [] st.k = "do" -> LoopD(x, st, s)
    [] st.k = "for" ->
         LET n0 == Len(s.mem)
             s1 == IF "i" \in DOMAIN st THEN IF Seeking(s) THEN s ELSE Exec(x, st.i, s) ELSE s
             r == IF Seeking(s1)
                  THEN LET b == BodyDone(Exec(x, st.b, s1)) IN
                       IF b.mode = "n" /\ b.ub = "" THEN LoopF(x, st, ForStep(x, st, b)) ELSE LoopDone(b)
                  ELSE LoopF(x, st, s1)
         IN [r EXCEPT !.env = s.env, !.mem = SubSeq(@, 1, n0)]
    [] st.k = "switch" ->
         LET c == IF Seeking(s) THEN RV(IntVal(0), s) ELSE Eval(x, st.c, s)
             lab == SwitchTarget(x, st, c.v)
             s1 == IF Seeking(s) THEN s ELSE GoTo(c.s, lab)
         IN IF c.s.ub # "" THEN c.s
            ELSE IF ~Seeking(s) /\ lab = "" THEN c.s ELSE LoopDone(Exec(x, st.b, s1))
    [] st.k = "lab" -> Exec(x, st.b, IF Seeking(s) /\ s.lab = st.l THEN Arrive(s) ELSE s)
    [] st.k = "goto" -> GoTo(Burn(s), st.l)
    [] st.k = "brk" -> [s EXCEPT !.mode = "brk"]
    [] st.k = "cont" -> [s EXCEPT !.mode = "cont"]
    [] st.k = "ret" -> IF "e" \in DOMAIN st
                       THEN LET r == Eval(x, st.e, s) IN [r.s EXCEPT !.mode = "ret", !.ret = r.v]
                       ELSE [s EXCEPT !.mode = "ret", !.ret = None]
    [] st.k = "empty" -> s

-----------------------------------------------------------------------------
(* program start: functions and globals get their blocks, then initializers run *)
Fuel == 4000
State0 == [mem |-> <<>>, env |-> <<>>, out |-> <<>>, ub |-> "", mode |-> "n", lab |-> "", ret |-> None,
           va |-> <<>>, vai |-> 0, fuel |-> Fuel, depth |-> 0]
RECURSIVE FnEnv(_, _, _)
FnEnv(P, i, env) ==
  IF i > Len(P.fnames) THEN env
  ELSE LET f == P.funcs[P.fnames[i]]
           ft == [k |-> "fn", r |-> f.r, ps |-> [j \in 1..Len(f.ps) |-> f.ps[j].t], va |-> f.va]
       IN FnEnv(P, i + 1, (P.fnames[i] :> [b |-> FnBase + i, t |-> ft]) @@ env)
RECURSIVE GlobEnv(_, _, _, _)
GlobEnv(x, i, env, mem) ==
  IF i > Len(x.P.globs) THEN [env |-> env, mem |-> mem]
  ELSE LET gv == x.P.globs[i]
           t == DeclType(x, gv.t, gv.i, env)
       IN GlobEnv(x, i + 1, (gv.n :> [b |-> Len(mem) + 1, t |-> t]) @@ env,
                  Append(mem, [j \in 1..Sz(x, t) |-> 0]))
RECURSIVE GlobInit(_, _, _)
GlobInit(x, i, s) ==
  IF i > Len(x.P.globs) THEN s
  ELSE LET gv == x.P.globs[i]
           l == s.env[gv.n]
       IN GlobInit(x, i + 1, IF gv.i.k = "none" THEN s
                             ELSE RunActs(x, l.b, InitActs(x, l.t, 0, gv.i, s.env), 1, s))
(* the context of a program: layouts, program, global environment *)
Context(P) == LET L == Layouts(P.tg, P.structs, <<>>)
                  x0 == [g |-> P.tg, L |-> L, P |-> P, E |-> <<>>]
                  ge == GlobEnv(x0, 1, FnEnv(P, 1, <<>>), <<>>)
              IN [g |-> P.tg, L |-> L, P |-> P, E |-> ge.env, M |-> ge.mem]
StartState(x) == GlobInit(x, 1, [State0 EXCEPT !.env = x.E, !.mem = x.M])
=============================================================================
