------------------------------- MODULE CDriver -------------------------------
(* The compiler driver.  It takes inputs in order; every input has a chain of
   stages determined by its kind and by what is asked for (preprocessed text,
   assembly, object, executable).  The stages of a chain form a pipe, so they
   start and end in any order; a stage fails because of what it is given (own),
   or because of a fault.  An input whose chain ends well has its output
   complete; one that does not leaves its output absent or as it was before.
   After a failure the driver may go on with the other inputs or stop, but
   never links.  Temporary objects are gone at the end, and the exit status is
   zero exactly when all that was asked for is there.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES pid, cur, run, done, bad, file, temps, ran, text, phase
vars == <<pid, cur, run, done, bad, file, temps, ran, text, phase>>
P == Cases[pid]
N == Len(P.srcs)
Stages == {"cpp", "cc1", "as", "ld"}

Chain(s, mode) ==
  CASE s.k = "c" -> (CASE mode = "E" -> <<"cpp">> [] mode = "S" -> <<"cpp", "cc1">> [] OTHER -> <<"cpp", "cc1", "as">>)
    [] s.k = "s" -> IF mode \in {"c", "x"} THEN <<"as">> ELSE <<>>
    [] OTHER -> <<>>
ChainSet(i) == {Chain(P.srcs[i], P.mode)[j] : j \in DOMAIN Chain(P.srcs[i], P.mode)}
(* the name of the file an input's chain makes; "" is the standard output, "tmp" an object that is only linked *)
Out(i) == IF P.mode = "x" THEN "tmp" ELSE P.srcs[i].out
Fails(i, st) == st \in {P.srcs[i].own[j] : j \in DOMAIN P.srcs[i].own} \/ (P.fault.i = i /\ P.fault.stage = st)
(* what is written to a file that cannot be created or be written to *)
LastStage(i) == LET c == Chain(P.srcs[i], P.mode) IN c[Len(c)]

(* linking: every reference of a linked input is defined by exactly one of them *)
Range(q) == {q[j] : j \in DOMAIN q}
Linked == 1..N
Defs(x) == {i \in Linked : x \in Range(P.srcs[i].defs)}
LinkOk == /\ \A i \in Linked : "ld" \notin Range(P.srcs[i].own)
          /\ \A i \in Linked : \A x \in Range(P.srcs[i].refs) : Defs(x) # {}
          /\ \A i \in Linked : \A x \in Range(P.srcs[i].defs) : Cardinality(Defs(x)) = 1
          /\ Defs("main") # {}
          /\ P.fault.i # 0 /\ P.exe.can
(* one name for several outputs *)
Conflict(p) == p.mode # "x" /\ p.named /\ Cardinality({i \in DOMAIN p.srcs : p.srcs[i].k \in {"c", "s", "unk"}}) > 1
(* what the program prints: the values of the functions main refers to *)
Value(x) == LET i == CHOOSE i \in Defs(x) : TRUE IN LET j == CHOOSE j \in DOMAIN P.srcs[i].defs : P.srcs[i].defs[j] = x IN P.srcs[i].vals[j]
MainRefs == LET i == CHOOSE i \in Defs("main") : TRUE IN P.srcs[i].refs

Names == {P.srcs[i].out : i \in 1..N} \union {P.exe.name}
Before(n) == IF n \in Range(P.old) THEN "old" ELSE "absent"

Init == /\ pid \in DOMAIN Cases /\ cur = 0 /\ run = [s \in {} |-> ""] /\ done = {} /\ bad = IF Conflict(Cases[pid]) THEN {0} ELSE {}
        /\ file = [n \in {Cases[pid].srcs[i].out : i \in DOMAIN Cases[pid].srcs} \union {Cases[pid].exe.name}
                      |-> IF n \in Range(Cases[pid].old) THEN "old" ELSE "absent"]
        /\ temps = {} /\ ran = <<>> /\ text = <<>> /\ phase = IF Conflict(Cases[pid]) THEN "clean" ELSE "next"

Same(x) == x' = x
(* the next input, or the link, or the end *)
NextInput ==
  /\ phase = "next" /\ cur < N
  /\ LET i == cur + 1 IN
       /\ cur' = i
       /\ IF P.srcs[i].k = "unk"
          THEN bad' = bad \union {i} /\ phase' = "failed" /\ UNCHANGED <<run, temps, done>>
          ELSE IF Chain(P.srcs[i], P.mode) = <<>>
          THEN done' = done \union {i} /\ UNCHANGED <<run, temps, bad, phase>>
          ELSE /\ run' = [s \in ChainSet(i) |-> "idle"] /\ phase' = "pipe"
               /\ temps' = IF Out(i) = "tmp" THEN temps \union {i} ELSE temps
               /\ UNCHANGED <<done, bad>>
  /\ UNCHANGED <<pid, file, ran, text>>
(* Stages start in the order of the pipe here: the order in which they start
   and end cannot be told from the outside, so one order stands for all of
   them - unless one has failed, when the others may be stopped at any time.  *)
Idle(s) == run[s] = "idle"
Before1(s) == LET c == Chain(P.srcs[cur], P.mode) IN {c[j] : j \in {j \in DOMAIN c : \E m \in DOMAIN c : c[m] = s /\ j < m}}
Start ==
  /\ phase = "pipe"
  /\ \E s \in DOMAIN run : /\ Idle(s) /\ \A t \in Before1(s) : ~Idle(t)
                           /\ run' = [run EXCEPT ![s] = "on"] /\ ran' = Append(ran, s)
  /\ UNCHANGED <<pid, cur, done, bad, file, temps, text, phase>>
End ==
  /\ phase = "pipe"
  /\ \E s \in DOMAIN run : /\ run[s] = "on" /\ \A t \in Before1(s) : run[t] \notin {"idle", "on"}
                           /\ run' = [run EXCEPT ![s] = IF Fails(cur, s) THEN "bad" ELSE "ok"]
  /\ UNCHANGED <<pid, cur, done, bad, file, temps, ran, text, phase>>
PipeBad == \E s \in DOMAIN run : run[s] = "bad"
PipeOver ==
  /\ phase = "pipe"
  /\ \/ /\ \A s \in DOMAIN run : run[s] = "ok"
        /\ done' = done \union {cur} /\ phase' = "next" /\ UNCHANGED bad
        /\ IF Out(cur) = "" THEN text' = Append(text, cur) /\ UNCHANGED file
           ELSE IF Out(cur) = "tmp" THEN UNCHANGED <<text, file>>
           ELSE file' = [file EXCEPT ![Out(cur)] = "new"] /\ UNCHANGED text
     \/ /\ PipeBad
        /\ bad' = bad \union {cur} /\ phase' = "failed" /\ UNCHANGED <<done, text>>
        /\ IF Out(cur) \in {"", "tmp"} THEN UNCHANGED file
           ELSE \E c \in {"absent", file[Out(cur)]} : file' = [file EXCEPT ![Out(cur)] = c]
  /\ run' = [s \in {} |-> ""]
  /\ UNCHANGED <<pid, cur, temps, ran>>
AfterFailure ==
  /\ phase = "failed"
  /\ phase' \in {"next", "link"}                    (* go on, or not *)
  /\ UNCHANGED <<pid, cur, run, done, bad, file, temps, ran, text>>
ToLink == /\ phase = "next" /\ cur = N /\ phase' = "link" /\ UNCHANGED <<pid, cur, run, done, bad, file, temps, ran, text>>
Link ==
  /\ phase = "link"
  /\ IF P.mode # "x" THEN UNCHANGED <<file, ran, bad>>
     ELSE IF bad = {} /\ LinkOk THEN file' = [file EXCEPT ![P.exe.name] = "new"] /\ ran' = Append(ran, "ld") /\ UNCHANGED bad
     ELSE /\ \E c \in {"absent", file[P.exe.name]} : file' = [file EXCEPT ![P.exe.name] = c]
          /\ bad' = bad \union {0} /\ UNCHANGED ran
  /\ phase' = "clean"
  /\ UNCHANGED <<pid, cur, run, done, temps, text>>
Clean == /\ phase = "clean" /\ temps' = {} /\ phase' = "exit" /\ UNCHANGED <<pid, cur, run, done, bad, file, ran, text>>

Ct(s) == Cardinality({j \in DOMAIN ran : ran[j] = s})
Exit ==
  /\ phase = "exit" /\ phase' = "over"
  /\ PrintT("@@" \o ToJson([pid |-> pid, zero |-> bad = {}, files |-> file, text |-> text,
                            prints |-> IF P.mode = "x" /\ bad = {} THEN [j \in DOMAIN MainRefs |-> Value(MainRefs[j])] ELSE <<>>,
                            ran |-> IF bad = {} THEN [s \in Stages |-> Ct(s)] ELSE [s \in Stages |-> -1]]))
  /\ UNCHANGED <<pid, cur, run, done, bad, file, temps, ran, text>>
Next == NextInput \/ Start \/ End \/ PipeOver \/ AfterFailure \/ ToLink \/ Link \/ Clean \/ Exit
Spec == Init /\ [][Next]_vars

(* the guarantees, on the specification itself *)
AllThere == /\ \A i \in 1..N : (Chain(P.srcs[i], P.mode) # <<>> /\ Out(i) \notin {"", "tmp"}) => file[Out(i)] = "new"
            /\ P.mode = "x" => file[P.exe.name] = "new"
TypeOK ==
  /\ phase \in {"exit", "over"} => temps = {}
  /\ phase \in {"exit", "over"} /\ bad = {} => AllThere
  /\ phase \in {"exit", "over"} /\ bad # {} =>
       /\ (P.mode = "x" => file[P.exe.name] # "new")
       /\ \A i \in bad \ {0} : (Out(i) \notin {"", "tmp"} => file[Out(i)] \in {"absent", "old"})
  /\ \A i \in bad : i \notin done
=============================================================================
