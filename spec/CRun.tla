-------------------------------- MODULE CRun --------------------------------
(***************************************************************************)
(* Behaviours of the C abstract machine for a batch of programs.  Each     *)
(* program is one initial state; each transition executes one top-level    *)
(* step of its main function.  A step whose behaviour is undefined or      *)
(* unspecified is not enabled: it is skipped and left out of the program   *)
(* that is replayed on the real compiler.  The final state reports which   *)
(* steps were taken and the observable words.                              *)
(***************************************************************************)
EXTENDS CMachine, Json, IOUtils
Progs == JsonDeserialize(IOEnv.PROGS)
Ctx == [p \in DOMAIN Progs |-> Context(Progs[p])]
VARIABLES pid, pc, s, taken, und
vars == <<pid, pc, s, taken, und>>
Init == /\ pid \in DOMAIN Progs
        /\ pc = 1
        /\ s = StartState(Ctx[pid])
        /\ taken = <<>>
        /\ und = <<>>
Steps == Progs[pid].main
Step == /\ pc >= 1 /\ pc <= Len(Steps)
        /\ pc' = pc + 1
        /\ pid' = pid
        /\ LET r == Exec(Ctx[pid], Steps[pc], [s EXCEPT !.fuel = Fuel])
               ok == r.ub = "" /\ r.mode = "n" /\ s.ub = ""
           IN IF ok THEN s' = r /\ taken' = Append(taken, Len(r.out)) /\ und' = und
              ELSE s' = s /\ taken' = Append(taken, -1) /\ und' = Append(und, r.ub)
Finish == /\ pc = Len(Steps) + 1
          /\ pc' = 0
          /\ PrintT("@@" \o ToJson([pid |-> pid, taken |-> taken, out |-> s.out, ub |-> s.ub, und |-> und]))
          /\ UNCHANGED <<pid, s, taken, und>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
(* every state reached is a well-formed machine state *)
TypeOK == /\ \A b \in DOMAIN s.mem : \A i \in DOMAIN s.mem[b] : s.mem[b][i] \in -1..255
          /\ \A i \in DOMAIN s.out : IsWord(s.out[i].w)
          /\ \A n \in DOMAIN s.env : s.env[n].b \in 1..Len(s.mem) \/ s.env[n].b > FnBase
=============================================================================
