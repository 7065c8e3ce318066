------------------------------- MODULE CLink -------------------------------
(* The linker.  Inputs are taken in the order of the command line.  An object is
   always part of the program; a member of an archive only when it is the first
   in its archive to define a symbol that is undefined at that time - which of
   several undefined symbols is looked for first is not prescribed, so the order
   of extraction is a choice.  A table holds the definition of every symbol: a
   strong one wins over a common one and that over a weak one, the first of
   equals is kept, except that two strong ones are an error, and that common
   symbols are merged.  When all inputs are used up, an undefined symbol is an
   error unless all references to it are weak.

   The program that is recorded (its segments, where the sections were found in
   them, and the linker's map for the symbols the linker itself allocates) must
   be what some behaviour of this machine prescribes.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES pid, i, inc, tab, und, err, phase
vars == <<pid, i, inc, tab, und, err, phase>>
P == Cases[pid]
G == P.got
Range(f) == {f[x] : x \in DOMAIN f}

(* ---- objects *)
Syms(o) == Range(P.objs[o].syms)
Global(s) == s.bind # "l"
Defs(o) == {s \in Syms(o) : Global(s) /\ s.def # 0}
Undefs(o) == {s.name : s \in {s \in Syms(o) : s.bind = "g" /\ s.def = 0}}
Rank(s) == IF s.bind = "w" THEN 1 ELSE IF s.def < 0 THEN 2 ELSE 3
Generated == {"__init_array_start", "__init_array_end", "__fini_array_start", "__fini_array_end"}

Max(a, b) == IF a > b THEN a ELSE b
(* the table after object o has been added *)
Entry(o, s) == [rank |-> Rank(s), obj |-> o, def |-> s.def, off |-> s.off, size |-> s.size, al |-> s.al, csize |-> IF s.def < 0 THEN s.size ELSE 0, cal |-> IF s.def < 0 THEN s.al ELSE 1]
Better(old, new) ==
  LET w == IF new.rank > old.rank THEN new ELSE old IN
  [w EXCEPT !.csize = Max(old.csize, new.csize), !.cal = Max(old.cal, new.cal)]
Added(o) ==
  LET ns == {s.name : s \in Defs(o)}
      new(n) == Entry(o, CHOOSE s \in Defs(o) : s.name = n)
  IN [n \in DOMAIN tab \union ns |-> IF n \notin ns THEN tab[n] ELSE IF n \notin DOMAIN tab THEN new(n) ELSE Better(tab[n], new(n))]
Clash(o) == \E s \in Defs(o) : s.name \in Generated \/ (Rank(s) = 3 /\ s.name \in DOMAIN tab /\ tab[s.name].rank = 3)

(* ---- archives and where they are found *)
Found(l) == {d \in DOMAIN P.dirs : \E a \in Range(P.dirs[d]) : a.name = l}
Members(x) == IF x.k = "a" THEN x.m
              ELSE LET d == CHOOSE d \in Found(x.name) : \A e \in Found(x.name) : d <= e IN
                   (CHOOSE a \in Range(P.dirs[d]) : a.name = x.name).m
FirstDef(ms, n) == LET js == {j \in DOMAIN ms : \E s \in Defs(ms[j]) : s.name = n} IN
                   IF js = {} THEN 0 ELSE ms[CHOOSE j \in js : \A l \in js : j <= l]
Wanted(ms) == {FirstDef(ms, n) : n \in und} \ {0}

Init == /\ pid \in DOMAIN Cases /\ i = 1 /\ inc = <<>> /\ tab = [n \in {} |-> 0]
        /\ und = {P.entry} /\ err = FALSE /\ phase = "run"

Include(o) ==
  /\ inc' = Append(inc, o) /\ tab' = Added(o) /\ err' = Clash(o)
  /\ und' = (und \union Undefs(o)) \ (DOMAIN Added(o) \union Generated)
Running == phase = "run" /\ ~err /\ i <= Len(P.inputs)
Object  == Running /\ P.inputs[i].k = "o" /\ Include(P.inputs[i].o) /\ i' = i + 1 /\ UNCHANGED <<pid, phase>>
Missing == Running /\ (P.inputs[i].k = "x" \/ (P.inputs[i].k = "l" /\ Found(P.inputs[i].name) = {})) /\ err' = TRUE /\ UNCHANGED <<pid, i, inc, tab, und, phase>>
Archive == P.inputs[i].k = "a" \/ (P.inputs[i].k = "l" /\ Found(P.inputs[i].name) # {})
Extract == Running /\ Archive /\ (\E o \in Wanted(Members(P.inputs[i])) : Include(o)) /\ UNCHANGED <<pid, i, phase>>
Done    == Running /\ Archive /\ Wanted(Members(P.inputs[i])) = {} /\ i' = i + 1 /\ UNCHANGED <<pid, inc, tab, und, err, phase>>

(* ---- the program *)
Secs(o) == DOMAIN P.objs[o].secs
Sec(o, s) == P.objs[o].secs[s]
At(o, s) == G.at[o][s]
InSeg(g, a) == a >= g.addr /\ a < g.addr + g.memsz
SegOf(a) == LET gs == {g \in DOMAIN G.segs : InSeg(G.segs[g], a)} IN IF Cardinality(gs) = 1 THEN CHOOSE g \in gs : TRUE ELSE 0
Mem(g, a) == LET d == a - g.addr IN IF d < Len(g.bytes) THEN g.bytes[d + 1] ELSE 0

Byte(v, j) == IF j > 4 THEN IF v < 0 THEN 255 ELSE 0 ELSE (v \div (CASE j = 1 -> 1 [] j = 2 -> 256 [] j = 3 -> 65536 [] OTHER -> 16777216)) % 256
LE(v, n) == [j \in 1..n |-> Byte(v, j)]

MapOf(n) == LET ms == {m \in Range(G.map) : m.name = n} IN IF Cardinality(ms) = 1 THEN (CHOOSE m \in ms : TRUE).addr ELSE -1
Addr(n) == IF n \in Generated THEN MapOf(n)
           ELSE IF n \notin DOMAIN tab THEN 0                   \* only weak references
           ELSE LET e == tab[n] IN IF e.def < 0 THEN MapOf(n) ELSE At(e.obj, e.def) + e.off
Value(o, n) == LET ls == {s \in Syms(o) : s.name = n /\ s.bind = "l"} IN
               IF ls # {} THEN LET s == CHOOSE s \in ls : TRUE IN At(o, s.def) + s.off ELSE Addr(n)
PieceLen(p) == CASE p.k = "b" -> Len(p.v) [] p.k = "z" -> p.n [] p.k = "abs" -> 8 [] OTHER -> 4
RECURSIVE Contents(_, _, _, _)
Contents(o, ps, j, a) ==
  IF j > Len(ps) THEN <<>>
  ELSE LET p == ps[j] IN
       (CASE p.k = "b" -> p.v
          [] p.k = "z" -> [x \in 1..p.n |-> 0]
          [] p.k = "abs" -> LE(Value(o, p.sym) + p.off, 8)
          [] OTHER -> LE(Value(o, p.sym) + p.off - (a + 4), 4)) \o Contents(o, ps, j + 1, a + PieceLen(p))
SecOk(o, s) ==
  LET c == Sec(o, s)  a == At(o, s)  g == SegOf(a)
      bs == Contents(o, c.pieces, 1, a) IN
  IF a < 0 THEN "section is missing: " \o c.name
  ELSE IF c.size = 0 THEN IF \E q \in DOMAIN G.segs : G.segs[q].addr <= a /\ a <= G.segs[q].addr + G.segs[q].memsz THEN "" ELSE "empty section is nowhere"
  ELSE IF g = 0 THEN "section is outside of the segments: " \o c.name
  ELSE IF a % c.align # 0 THEN "alignment of " \o c.name
  ELSE IF a + c.size > G.segs[g].addr + G.segs[g].memsz THEN "segment is too short for " \o c.name
  ELSE IF (c.w /\ ~G.segs[g].w) \/ (c.x /\ ~G.segs[g].x) THEN "permissions of " \o c.name
  ELSE IF c.name = ".bss" THEN IF \A j \in 1..c.size : Mem(G.segs[g], a + j - 1) = 0 THEN "" ELSE "contents of .bss"
  ELSE IF \A j \in 1..c.size : Mem(G.segs[g], a + j - 1) = bs[j] THEN "" ELSE "contents of " \o c.name

Commons == {n \in DOMAIN tab : tab[n].def < 0}
CommonOk(n) ==
  LET a == MapOf(n)  g == SegOf(a) IN
  IF g = 0 THEN "common symbol is nowhere"
  ELSE IF a % tab[n].cal # 0 THEN "alignment of a common symbol"
  ELSE IF a + tab[n].csize > G.segs[g].addr + G.segs[g].memsz THEN "segment is too short for a common symbol"
  ELSE IF ~G.segs[g].w THEN "permissions of a common symbol"
  ELSE IF \A j \in 1..tab[n].csize : Mem(G.segs[g], a + j - 1) = 0 THEN "" ELSE "common symbol is not zero"
(* every piece of storage, as <<from, to>> *)
Ranges == {<<At(x[1], x[2]), At(x[1], x[2]) + Sec(x[1], x[2]).size, x[1], x[2], "">> : x \in {y \in (Range(inc) \X (1..9)) : y[2] \in Secs(y[1])}}
          \union {<<MapOf(n), MapOf(n) + tab[n].csize, 0, 0, n>> : n \in Commons}
Apart == \A x \in Ranges : \A y \in Ranges : x = y \/ x[1] = x[2] \/ y[1] = y[2] \/ x[2] <= y[1] \/ y[2] <= x[1]
Sum(S) == LET RECURSIVE Add(_) Add(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN x[2] - x[1] + Add(T \ {x}) IN Add(S)
Array(name, from, to) ==
  LET rs == {x \in Ranges : x[3] # 0 /\ Sec(x[3], x[4]).name = name} IN
  /\ \A x \in rs : MapOf(from) <= x[1] /\ x[2] <= MapOf(to)
  /\ MapOf(to) - MapOf(from) = Sum(rs)
Strong == {n \in DOMAIN tab : tab[n].rank = 3}
Program ==
  LET bad == {SecOk(x[1], x[2]) : x \in {y \in (Range(inc) \X (1..9)) : y[2] \in Secs(y[1])}} \ {""}
      badc == {CommonOk(n) : n \in Commons} \ {""} IN
  IF bad # {} THEN CHOOSE b \in bad : TRUE
  ELSE IF badc # {} THEN CHOOSE b \in badc : TRUE
  ELSE IF \E o \in DOMAIN P.objs : o \notin Range(inc) /\ \E s \in Secs(o) : G.at[o][s] >= 0 THEN "needless object"
  ELSE IF ~Apart THEN "overlap"
  ELSE IF ~Array(".init_array", "__init_array_start", "__init_array_end") THEN "bounds of .init_array"
  ELSE IF ~Array(".fini_array", "__fini_array_start", "__fini_array_end") THEN "bounds of .fini_array"
  ELSE IF G.entry # Addr(P.entry) THEN "entry address"
  ELSE IF \E n \in Strong : MapOf(n) # Addr(n) THEN "map"
  ELSE ""
Verdict ==
  IF err \/ und # {} THEN IF G.ok THEN "link succeeds" \o (IF err THEN " despite an error" ELSE " with undefined symbols") ELSE ""
  ELSE IF ~G.ok THEN "link fails" ELSE Program
Finish == /\ phase = "run" /\ (err \/ i > Len(P.inputs))
          /\ phase' = "end" /\ UNCHANGED <<pid, i, inc, tab, und, err>>
          /\ PrintT("@@" \o ToJson([pid |-> pid, why |-> Verdict, fails |-> err \/ und # {}]))
Next == Object \/ Missing \/ Extract \/ Done \/ Finish
Spec == Init /\ [][Next]_vars
(* no definition is ever lost, and what is undefined has no definition *)
TypeOK == /\ i >= 1 /\ phase \in {"run", "end"}
          /\ und \intersect DOMAIN tab = {}
          /\ \A n \in DOMAIN tab : tab[n].obj \in Range(inc)
          /\ \A o \in Range(inc) : \A s \in Defs(o) : s.name \in DOMAIN tab /\ tab[s.name].rank >= Rank(s)
=============================================================================
