------------------------------- MODULE CScope -------------------------------
(* Scopes, linkage and name spaces.  A translation unit is read as a sequence
   of events: declarations of objects, functions, typedef names, enumeration
   constants and tags, opening and closing of scopes, labels, and uses.  The
   state is the stack of scopes, each binding ordinary identifiers and tags, the
   table of entities with linkage, and the table of tag types, which may become
   complete later.  Every event is accepted (a use yields what it denotes),
   violates a constraint ("err"), or is one whose meaning C leaves undefined
   ("drop").  A valid program consists of the accepted events; an invalid one
   of the accepted events up to, and with, some constraint violation.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES pid, i, scopes, tags, lnk, labels, dec
vars == <<pid, i, scopes, tags, lnk, labels, dec>>
P == Cases[pid]
Ev == P.ev[i]
None == [k |-> "none"]
EmptyF == [n \in {} |-> None]
NoScope == [o |-> EmptyF, t |-> EmptyF]
N == Len(scopes)
Cur == scopes[N]
FileScope == N = 1

Init == /\ pid \in DOMAIN Cases /\ i = 1 /\ scopes = <<NoScope>> /\ tags = <<>> /\ lnk = EmptyF /\ labels = {} /\ dec = <<>>

(* ---- lookup: the innermost scope with a binding *)
Ord(sc, n) == LET js == {j \in DOMAIN sc : n \in DOMAIN sc[j].o} IN
              IF js = {} THEN None ELSE sc[CHOOSE j \in js : \A l \in js : l <= j].o[n]
Tag(sc, n) == LET js == {j \in DOMAIN sc : n \in DOMAIN sc[j].t} IN
              IF js = {} THEN 0 ELSE sc[CHOOSE j \in js : \A l \in js : l <= j].t[n]
Bind(sc, n, e) == [sc EXCEPT ![Len(sc)].o = (n :> e) @@ @]
BindTag(sc, n, id) == [sc EXCEPT ![Len(sc)].t = (n :> id) @@ @]

PtrSize == P.ptr
(* ---- the meaning of a use: [st, v] *)
Ok(v) == [st |-> "ok", v |-> v, n |-> ""]
OkL(n) == [st |-> "ok", v |-> 0, n |-> n]              \* the value of the entity with linkage n
Err == [st |-> "err", v |-> 0, n |-> ""]
Drop == [st |-> "drop", v |-> 0, n |-> ""]
SizeOf(sc, n) == LET e == Ord(sc, n) IN
  CASE e.k = "none" -> Err [] e.k = "func" -> Drop [] e.k = "enumc" -> Ok(4)
    [] e.k = "typedef" -> Ok(e.size) [] e.k = "obj" -> Ok(IF e.rep = "ptr" THEN PtrSize ELSE e.size)
Use(sc, u) == LET e == Ord(sc, u.name) IN
  CASE u.form = "size" -> SizeOf(sc, u.name)
    [] u.form = "val" -> (CASE e.k \in {"none", "typedef"} -> Err
                            [] e.k = "enumc" -> Ok(e.val)
                            [] e.k = "func" -> OkL(u.name)
                            [] e.k = "obj" -> IF e.lk # "none" THEN OkL(u.name)
                                              ELSE IF e.rep \in {"int", "arr"} /\ e.val >= 0 THEN Ok(e.val) ELSE Drop)
    [] u.form = "type" -> IF e.k = "typedef" THEN Ok(e.size) ELSE Err
    [] u.form = "mem" -> IF e.k = "none" THEN Err
                         ELSE IF e.k = "obj" /\ e.rep = "str" /\ \E j \in DOMAIN e.mem : e.mem[j][1] = u.m
                              THEN Ok(e.mem[CHOOSE j \in DOMAIN e.mem : e.mem[j][1] = u.m][2]) ELSE IF e.k = "func" THEN Drop ELSE Err
    [] u.form = "pt" -> IF e.k = "none" THEN Err
                        ELSE IF e.k = "obj" /\ e.rep = "ptr" THEN (IF tags[e.tag].size = 0 THEN Err ELSE Ok(tags[e.tag].size))
                        ELSE Drop
    [] u.form = "tag" -> LET t == Tag(sc, u.name) IN
                         IF t = 0 THEN Err ELSE IF tags[t].kw # u.kw THEN Err ELSE IF tags[t].size = 0 THEN Err ELSE Ok(tags[t].size)

(* ---- declarations of ordinary identifiers: [st, sc, lk] *)
Good(sc, l) == [st |-> "ok", sc |-> sc, l |-> l]
Bad == [st |-> "err", sc |-> scopes, l |-> lnk]
Und == [st |-> "drop", sc |-> scopes, l |-> lnk]
Mem(n, f) == n \in DOMAIN f
Same(a, b) == a.k = b.k /\ a.rep = b.rep /\ a.size = b.size /\ a.sig = b.sig
Here(sc, n) == IF Mem(n, sc[Len(sc)].o) THEN sc[Len(sc)].o[n] ELSE None
(* an identifier without linkage *)
DeclNone(sc, n, e) ==
  LET h == Here(sc, n) IN
  IF h.k = "none" THEN (IF Len(sc) = 1 /\ Mem(n, lnk) THEN Und ELSE Good(Bind(sc, n, e), lnk))
  ELSE IF h.k = "typedef" /\ e.k = "typedef" /\ h.size = e.size THEN Good(sc, lnk)
  ELSE Bad
(* an identifier with linkage; def: this declaration is a definition with a value *)
DeclLinked(sc, n, e, spec, def, val) ==
  LET h == Here(sc, n)
      vis == Ord(sc, n)
      inh == spec = "extern" \/ (e.k = "func" /\ spec = "none")
      lk == IF spec = "static" THEN "int"
            ELSE IF inh /\ vis.k \in {"obj", "func"} /\ vis.lk # "none" THEN vis.lk ELSE "ext"
      e2 == [e EXCEPT !.lk = lk]
  IN IF h.k \notin {"none"} /\ (h.k \notin {"obj", "func"} \/ h.lk = "none") THEN Bad
     ELSE IF h.k # "none" /\ {h.rep, e.rep} \subseteq {"int", "arr", "fun"} /\ ~Same(h, e) THEN Bad
     ELSE IF h.k # "none" /\ ~({h.rep, e.rep} \subseteq {"int", "arr", "fun"}) THEN (IF h.k # e.k THEN Bad ELSE Und)
     ELSE IF Mem(n, lnk) /\ (~Same(lnk[n], e) \/ lnk[n].lk # lk) THEN Und
     ELSE IF Len(sc) > 1 /\ Mem(n, sc[1].o) /\ sc[1].o[n].k \in {"typedef", "enumc"} THEN Und
     ELSE IF Mem(n, lnk) /\ lnk[n].def /\ def THEN (IF Len(sc) = 1 /\ h.k # "none" THEN Bad ELSE Und)
     ELSE Good(Bind(sc, n, e2),
               (n :> [k |-> e.k, rep |-> e.rep, size |-> e.size, sig |-> e.sig, lk |-> lk,
                      def |-> def \/ (Mem(n, lnk) /\ lnk[n].def), val |-> IF def THEN val ELSE IF Mem(n, lnk) THEN lnk[n].val ELSE 0,
                      tent |-> (Len(sc) = 1 /\ spec # "extern") \/ (Mem(n, lnk) /\ lnk[n].tent)]) @@ lnk)
Ent(k, rep, size, val) == [k |-> k, rep |-> rep, size |-> size, val |-> val, lk |-> "none", mem |-> <<>>, tag |-> 0, sig |-> 0]

(* ---- tags: [st, id, sc, tags] *)
TGood(id, sc, ts) == [st |-> "ok", id |-> id, sc |-> sc, tags |-> ts]
TBad == [st |-> "err", id |-> 0, sc |-> scopes, tags |-> tags]
NewTag(sc, n, kw, size) == LET ts == Append(tags, [kw |-> kw, size |-> size]) IN
                           TGood(Len(ts), IF n = "" THEN sc ELSE BindTag(sc, n, Len(ts)), ts)
DefTag(sc, n, kw, size) ==
  IF n # "" /\ Mem(n, sc[Len(sc)].t)
  THEN LET id == sc[Len(sc)].t[n] IN
       IF tags[id].kw # kw \/ tags[id].size # 0 THEN TBad ELSE TGood(id, sc, [tags EXCEPT ![id].size = size])
  ELSE NewTag(sc, n, kw, size)
FwdTag(sc, n, kw) ==
  IF Mem(n, sc[Len(sc)].t) THEN LET id == sc[Len(sc)].t[n] IN IF tags[id].kw # kw THEN TBad ELSE TGood(id, sc, tags)
  ELSE NewTag(sc, n, kw, 0)
RefTag(sc, n, kw) ==
  LET id == Tag(sc, n) IN
  IF id # 0 THEN (IF tags[id].kw # kw THEN TBad ELSE TGood(id, sc, tags))
  ELSE IF kw = "enum" THEN TBad ELSE NewTag(sc, n, kw, 0)

Uniq(q) == \A a, b \in DOMAIN q : a # b => q[a] # q[b]
SetMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
(* a member [n, s, kw, sub]: kw = "" for an array of s characters, else an anonymous structure or union,
   whose members are members of the enclosing one *)
RECURSIVE StructSize(_, _)
RECURSIVE SizeSum(_)
MemSize(m) == IF m.kw = "" THEN m.s ELSE StructSize(m.kw, m.sub)
SizeSum(q) == IF q = <<>> THEN 0 ELSE MemSize(q[1]) + SizeSum(Tail(q))
StructSize(kw, mem) == IF kw = "struct" THEN SizeSum(mem) ELSE SetMax({MemSize(mem[j]) : j \in DOMAIN mem})
RECURSIVE Members(_)
Members(q) == IF q = <<>> THEN <<>>
              ELSE (IF q[1].kw = "" THEN <<<<q[1].n, q[1].s>>>> ELSE Members(q[1].sub)) \o Members(Tail(q))

(* enumerators: each is declared after its own value is known, which may use the ones before *)
RECURSIVE Enums(_, _, _)
Enums(sc, q, vs) ==
  IF q = <<>> THEN [st |-> "ok", sc |-> sc, vs |-> vs]
  ELSE LET c == q[1]
           s == IF c.dim = "" THEN Ok(0) ELSE SizeOf(sc, c.dim)
           v == IF c.auto /\ vs # <<>> THEN vs[Len(vs)] + 1 ELSE IF c.auto THEN 0 ELSE c.val + s.v
       IN IF s.st # "ok" /\ ~c.auto THEN [st |-> s.st, sc |-> sc, vs |-> vs]
          ELSE LET d == DeclNone(sc, c.name, Ent("enumc", "int", 4, v)) IN
               IF d.st # "ok" THEN [st |-> d.st, sc |-> sc, vs |-> vs] ELSE Enums(d.sc, Tail(q), Append(vs, v))

(* parameters *)
RECURSIVE Params(_, _)
Params(sc, q) == IF q = <<>> THEN [st |-> "ok", sc |-> sc]
                 ELSE LET d == DeclNone(sc, q[1].name, Ent("obj", "int", 4, q[1].val)) IN
                      IF d.st # "ok" THEN [st |-> d.st, sc |-> sc] ELSE Params(d.sc, Tail(q))

(* the labels of the function whose body starts after event j *)
RECURSIVE LabelsFrom(_)
LabelsFrom(j) == IF j > Len(P.ev) \/ P.ev[j].k = "end" THEN {}
                 ELSE (IF P.ev[j].k \in {"label", "gl"} THEN {P.ev[j].name} ELSE {}) \cup LabelsFrom(j + 1)
RECURSIVE FunStart(_)
FunStart(j) == IF P.ev[j].k = "fun" THEN j ELSE FunStart(j - 1)

R(st, sc, ts, l, lb, v) == [st |-> st, sc |-> sc, tags |-> ts, l |-> l, lb |-> lb, v |-> v]
No(st) == R(st, scopes, tags, lnk, labels, <<>>)
Yes(sc, v) == R("ok", sc, tags, lnk, labels, v)
FromD(d, v) == R(d.st, d.sc, tags, d.l, labels, v)

Declare(e) ==
  LET dim == IF e.dim = "" THEN Ok(0) ELSE SizeOf(scopes, e.dim)
      base == IF e.rep = "base" THEN Use(scopes, [form |-> "type", name |-> e.base]) ELSE Ok(0)
      size == IF e.rep = "int" THEN 4 ELSE IF e.rep = "base" THEN base.v ELSE e.size + dim.v
      ent == Ent("obj", IF e.rep = "base" THEN "arr" ELSE e.rep, size, IF e.init THEN e.val ELSE -1)
      linked == FileScope \/ e.spec = "extern"
  IN IF dim.st # "ok" THEN No(dim.st)
     ELSE IF base.st # "ok" THEN No(base.st)
     ELSE IF e.spec = "extern" /\ e.init THEN No("drop")
     ELSE LET d == IF linked THEN DeclLinked(scopes, e.name, ent, e.spec, e.init, e.val) ELSE DeclNone(scopes, e.name, ent)
              \* an initializer sees the identifier being declared
              iv == IF d.st = "ok" /\ e.iuse # "" /\ e.init THEN SizeOf(d.sc, e.iuse) ELSE Ok(0)
          IN IF d.st # "ok" THEN No(d.st)
             ELSE IF iv.st # "ok" THEN No(iv.st)
             ELSE IF e.iuse # "" /\ e.init
                  THEN (IF e.rep # "int" THEN No("drop")
                        ELSE R("ok", [d.sc EXCEPT ![N].o[e.name].val = IF e.init THEN e.val + iv.v ELSE -1], tags,
                               IF linked THEN [d.l EXCEPT ![e.name].val = e.val + iv.v] ELSE d.l, labels, <<size>>))
                  ELSE FromD(d, <<size>>)

Do(e) ==
  CASE e.k = "decl" -> Declare(e)
    [] e.k = "typedef" ->
         LET dim == IF e.dim = "" THEN Ok(0) ELSE SizeOf(scopes, e.dim)
             base == IF e.base # "" THEN Use(scopes, [form |-> "type", name |-> e.base]) ELSE Ok(e.size + dim.v)
         IN IF dim.st # "ok" THEN No(dim.st) ELSE IF base.st # "ok" THEN No(base.st)
            ELSE FromD(DeclNone(scopes, e.name, Ent("typedef", "arr", base.v, -1)), <<base.v>>)
    [] e.k = "enum" ->
         LET t == IF e.tag # "" THEN DefTag(scopes, e.tag, "enum", 4) ELSE TGood(0, scopes, tags)
             q == IF t.st = "ok" THEN Enums(t.sc, e.consts, <<>>) ELSE Enums(scopes, <<>>, <<>>)
         IN IF t.st # "ok" THEN No(t.st) ELSE IF q.st # "ok" THEN No(q.st)
            ELSE R("ok", q.sc, t.tags, lnk, labels, q.vs)
    [] e.k = "struct" ->
         LET size == StructSize(e.kw, e.mem)
             t == DefTag(scopes, e.tag, e.kw, size)
             mem == Members(e.mem)
             d == DeclNone(t.sc, e.name, [Ent("obj", "str", size, -1) EXCEPT !.mem = mem])
         IN IF t.st # "ok" THEN No(t.st)
            ELSE IF ~Uniq([j \in DOMAIN mem |-> mem[j][1]]) THEN No("err")
            ELSE IF e.name = "" THEN R("ok", t.sc, t.tags, lnk, labels, <<size>>)
            ELSE IF FileScope THEN No("drop")
            ELSE IF d.st # "ok" THEN No(d.st) ELSE R("ok", d.sc, t.tags, lnk, labels, <<size>>)
    [] e.k = "fwd" -> LET t == FwdTag(scopes, e.tag, e.kw) IN
                      IF t.st # "ok" THEN No(t.st) ELSE R("ok", t.sc, t.tags, lnk, labels, <<>>)
    [] e.k = "ptr" -> LET t == RefTag(scopes, e.tag, e.kw)
                          d == DeclNone(t.sc, e.name, [Ent("obj", "ptr", 0, -1) EXCEPT !.tag = t.id])
                      IN IF t.st # "ok" THEN No(t.st) ELSE IF FileScope THEN No("drop") ELSE IF d.st # "ok" THEN No(d.st)
                         ELSE R("ok", d.sc, t.tags, lnk, labels, <<>>)
    [] e.k = "func" -> IF e.def /\ ~FileScope THEN No("drop")
                       ELSE IF ~FileScope /\ e.spec = "static" THEN No("drop")
                       ELSE FromD(DeclLinked(scopes, e.name, [Ent("func", "fun", 0, -1) EXCEPT !.sig = e.sig], e.spec, e.def, e.val), <<>>)
    [] e.k = "fun" -> LET p == Params(Append(scopes, NoScope), e.params) IN IF p.st # "ok" THEN No(p.st) ELSE R("ok", p.sc, tags, lnk, {}, <<>>)
    [] e.k = "for" -> LET d == DeclNone(Append(scopes, NoScope), e.name, Ent("obj", "int", 4, e.val)) IN Yes(Append(d.sc, NoScope), <<>>)
    [] e.k = "open" -> Yes(Append(scopes, NoScope), <<>>)
    [] e.k = "close" -> Yes(SubSeq(scopes, 1, N - 1), <<>>)
    [] e.k = "forend" -> Yes(SubSeq(scopes, 1, N - 2), <<>>)
    [] e.k = "end" -> Yes(SubSeq(scopes, 1, N - 1), <<>>)
    [] e.k \in {"label", "gl"} -> IF e.name \in labels THEN No("err") ELSE R("ok", scopes, tags, lnk, labels \cup {e.name}, <<>>)
    [] e.k = "goto" -> IF e.name \in LabelsFrom(FunStart(i)) THEN Yes(scopes, <<>>) ELSE No("err")
    [] e.k = "use" -> LET u == Use(scopes, e) IN IF u.st # "ok" THEN No(u.st) ELSE Yes(scopes, IF u.n = "" THEN <<u.v>> ELSE <<u.n>>)

(* what is already bound where a declaration goes: only to classify violations *)
Before == CASE Ev.k = "use" -> IF Ev.form = "tag" THEN "" ELSE (LET o == Ord(scopes, Ev.name) IN IF o.k = "obj" THEN o.rep ELSE o.k)
            [] Ev.k \in {"decl", "typedef", "func", "ptr", "struct"} -> (LET o == Here(scopes, Ev.name) IN IF o.k = "none" THEN "none" ELSE o.k \o o.lk \o o.rep)
            [] OTHER -> ""
(* a function whose parameters are wrong is continued without parameters *)
Step == /\ i >= 1 /\ i <= Len(P.ev)
        /\ LET r == Do(Ev)
           IN /\ dec' = Append(dec, [st |-> r.st, v |-> IF r.st = "ok" THEN r.v ELSE <<>>, kind |-> Before])
              /\ IF r.st = "ok" THEN scopes' = r.sc /\ tags' = r.tags /\ lnk' = r.l /\ labels' = r.lb
                 ELSE IF Ev.k = "fun" THEN scopes' = Append(scopes, NoScope) /\ labels' = {} /\ UNCHANGED <<tags, lnk>>
                 ELSE UNCHANGED <<scopes, tags, lnk, labels>>
              /\ i' = i + 1
        /\ pid' = pid
Finish == /\ i = Len(P.ev) + 1 /\ i' = 0
          /\ PrintT("@@" \o ToJson([pid |-> pid, dec |-> dec, lnk |-> [n \in DOMAIN lnk |-> lnk[n]], depth |-> N]))
          /\ UNCHANGED <<pid, scopes, tags, lnk, labels, dec>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
(* scopes nest; a name with linkage is bound to its one entity wherever it is visible as linked *)
TypeOK == /\ N >= 1
          /\ \A j \in DOMAIN scopes : \A n \in DOMAIN scopes[j].o :
               scopes[j].o[n].lk # "none" => (n \in DOMAIN lnk /\ Same(lnk[n], scopes[j].o[n]))
=============================================================================
