----------------------------- MODULE CDeterm -----------------------------
(* The tool chain as a function.  What a stage makes of its inputs - the product,
   or the status and the diagnostics when there is none - depends on the
   operation, the options and the inputs, and on nothing else: not on when,
   where, in which environment or next to which other files it is run, nor on
   which generation of the compiler it is.  So a history of runs keeps one memo
   table, and every run must agree with it; and a longer chain of stages makes
   what the shorter ones make one after the other.

   A run is [op, opts, ins, out, ok]: op "E" "S" "c" "x" (preprocess, compile,
   assemble, link), ins the inputs as <<name, digest>>, out the digest.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES pid, i, memo, made, bad, phase
vars == <<pid, i, memo, made, bad, phase>>
R == Cases[pid].runs[i]
Key(r) == <<r.op, r.opts, r.ins>>
Content(r) == [j \in DOMAIN r.ins |-> r.ins[j][2]]

(* what has been made of what, whatever the files were called: <<op, opts, contents>> -> out *)
Made(op, opts, c) == IF <<op, opts, c>> \in DOMAIN made THEN made[<<op, opts, c>>] ELSE ""
(* one input a stage further: the assembly of a source, the object of an assembly or source *)
Next1(opts, d, lang) == IF lang = "c" THEN Made("S", opts, <<d>>) ELSE d
ObjectOf(opts, r, j) == LET d == r.ins[j][2] IN IF r.lang[j] = "o" THEN d ELSE Made("c", opts, <<d>>)
Composed(r) ==
  CASE r.op = "c" /\ r.lang = <<"c">> ->
         LET s == Next1(r.opts, r.ins[1][2], "c") IN IF s = "" THEN "" ELSE Made("c", r.opts, <<s>>)
    [] r.op = "x" /\ \E j \in DOMAIN r.ins : r.lang[j] # "o" ->
         LET os == [j \in DOMAIN r.ins |-> ObjectOf(r.opts, r, j)] IN
         IF \E j \in DOMAIN os : os[j] = "" THEN "" ELSE Made("x", r.opts, os)
    [] OTHER -> ""

Init == pid \in DOMAIN Cases /\ i = 1 /\ memo = [k \in {} |-> ""] /\ made = [k \in {} |-> ""] /\ bad = "" /\ phase = "run"
Run == /\ phase = "run" /\ bad = "" /\ i <= Len(Cases[pid].runs)
       /\ LET k == Key(R)  c == Composed(R) IN
          IF k \in DOMAIN memo /\ memo[k] # R.out THEN bad' = "differs" /\ UNCHANGED <<i, memo, made>>
          ELSE IF R.ok /\ c # "" /\ c # R.out THEN bad' = "not the composition" /\ UNCHANGED <<i, memo, made>>
          ELSE IF R.ok /\ Made(R.op, R.opts, Content(R)) # "" /\ Made(R.op, R.opts, Content(R)) # R.out THEN bad' = "depends on a name" /\ UNCHANGED <<i, memo, made>>
          ELSE /\ memo' = (k :> R.out) @@ memo
               /\ made' = (IF R.ok /\ ~Cases[pid].named THEN (<<R.op, R.opts, Content(R)>> :> R.out) @@ made ELSE made)
               /\ i' = i + 1 /\ UNCHANGED bad
       /\ UNCHANGED <<pid, phase>>
Finish == /\ phase = "run" /\ (bad # "" \/ i > Len(Cases[pid].runs))
          /\ phase' = "end" /\ UNCHANGED <<pid, i, memo, made, bad>>
          /\ PrintT("@@" \o ToJson([pid |-> pid, why |-> bad, at |-> i]))
Next == Run \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == i >= 1 /\ phase \in {"run", "end"}
(* a memo is never changed *)
Functional == [][\A k \in DOMAIN memo : memo'[k] = memo[k]]_vars
=============================================================================
