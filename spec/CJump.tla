-------------------------------- MODULE CJump --------------------------------
(* Non-local jumps.  The state is the stack of activations, each with its
   variables and the statements it still has to execute, and for every jump
   buffer the activation and the place where it was set.  A jump cuts the stack
   back to that activation and resumes there with the given value (1 for 0);
   variables keep the values they have (the programs only modify volatile ones).
   Programs jump only to a live buffer: they keep track of that themselves,
   dynamically, and the specification checks that they do.                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES pid, fr, buf, nid, fuel, out, steps
vars == <<pid, fr, buf, nid, fuel, out, steps>>
P == Cases[pid]
Frame(f, a, dep, id, dest) == [f |-> f, a |-> a, dep |-> dep, id |-> id, v |-> a % 10, r |-> 0, c |-> [l \in 1..P.loops |-> 0], k |-> P.funs[f], dest |-> dest]
Init == /\ pid \in DOMAIN Cases /\ nid = 1 /\ fuel = Cases[pid].fuel /\ out = <<>> /\ steps = 0
        /\ buf = [b \in 1..Cases[pid].bufs |-> [id |-> 0]]
        /\ fr = <<[f |-> Cases[pid].main, a |-> Cases[pid].arg, dep |-> Cases[pid].dep, id |-> 1, v |-> Cases[pid].arg % 10, r |-> 0,
                   c |-> [l \in 1..Cases[pid].loops |-> 0], k |-> Cases[pid].funs[Cases[pid].main], dest |-> "none"]>>

F == fr[Len(fr)]
Under == SubSeq(fr, 1, Len(fr) - 1)
Set(g) == fr' = Append(Under, g)
K(g, k) == [g EXCEPT !.k = k]
Dead(id) == [b \in DOMAIN buf |-> IF buf[b].id = id THEN [id |-> 0] ELSE buf[b]]
Bound == 700

Return ==
  LET ret == (F.a + F.v) % 1000 IN
  IF Len(fr) = 1 THEN /\ fr' = <<>> /\ buf' = Dead(F.id) /\ UNCHANGED <<nid, fuel, out>>
  ELSE LET p == fr[Len(fr) - 1]
           q == IF F.dest = "expr" THEN [p EXCEPT !.v = (p.a + ret * 2) % 1000] ELSE p
       IN fr' = Append(SubSeq(fr, 1, Len(fr) - 2), q) /\ buf' = Dead(F.id) /\ UNCHANGED <<nid, fuel, out>>
Step ==
  /\ fr # <<>> /\ steps >= 0 /\ steps < Bound /\ steps' = steps + 1 /\ pid' = pid
  /\ IF F.k = <<>> THEN Return
     ELSE LET s == F.k[1] t == Tail(F.k) IN
       CASE s.k = "log" -> Set(K(F, t)) /\ out' = Append(out, <<s.n, F.id, F.a, F.v, F.r>>) /\ UNCHANGED <<buf, nid, fuel>>
         [] s.k = "vol" -> Set([K(F, t) EXCEPT !.v = (@ * 3 + s.n) % 1000]) /\ UNCHANGED <<buf, nid, fuel, out>>
         [] s.k \in {"call", "expr"} ->
              IF F.dep = 0 THEN Set(K(F, t)) /\ UNCHANGED <<buf, nid, fuel, out>>
              ELSE /\ fr' = Append(Append(Under, K(F, t)), Frame(s.f, (F.a * 7 + s.n) % 1000, F.dep - 1, nid + 1, s.k))
                   /\ nid' = nid + 1 /\ UNCHANGED <<buf, fuel, out>>
         [] s.k = "loop" -> Set([K(F, <<[k |-> "test", l |-> s.l, n |-> s.n, body |-> s.body]>> \o t) EXCEPT !.c[s.l] = 0]) /\ UNCHANGED <<buf, nid, fuel, out>>
         [] s.k = "test" -> Set(IF F.c[s.l] < s.n THEN K(F, s.body \o <<[k |-> "inc", l |-> s.l]>> \o F.k) ELSE K(F, t)) /\ UNCHANGED <<buf, nid, fuel, out>>
         [] s.k = "inc" -> Set([K(F, t) EXCEPT !.c[s.l] = @ + 1]) /\ UNCHANGED <<buf, nid, fuel, out>>
         [] s.k = "set" -> /\ buf' = [buf EXCEPT ![s.b] = [id |-> F.id, k |-> t, s |-> s, q |-> steps]]
                           /\ Set([K(F, s.zero \o <<[k |-> "leave", b |-> s.b]>> \o t) EXCEPT !.r = IF s.val THEN 0 ELSE @]) /\ UNCHANGED <<nid, fuel, out>>
         \* with extent "if" the buffer is forgotten at the end of the statement that set it,
         \* which a jump to a buffer set before also leaves
         [] s.k = "leave" -> Set(K(F, t)) /\ buf' = [buf EXCEPT ![s.b] = IF P.extent = "if" /\ buf[s.b].id = F.id THEN [id |-> 0] ELSE @] /\ UNCHANGED <<nid, fuel, out>>
         [] s.k = "jump" ->
              IF fuel = 0 \/ buf[s.b].id = 0 THEN Set(K(F, t)) /\ UNCHANGED <<buf, nid, fuel, out>>
              ELSE LET z == buf[s.b]
                       i == CHOOSE j \in DOMAIN fr : fr[j].id = z.id
                       v == IF s.n = 0 THEN 1 ELSE s.n
                       g == [fr[i] EXCEPT !.k = z.s.non \o <<[k |-> "leave", b |-> s.b]>> \o z.k, !.r = IF z.s.val THEN v ELSE @]
                   IN /\ fr' = Append(SubSeq(fr, 1, i - 1), g) /\ fuel' = fuel - 1
                      /\ buf' = [b \in DOMAIN buf |-> IF buf[b].id # 0 /\ (buf[b].id > z.id \/ (P.extent = "if" /\ buf[b].q > z.q)) THEN [id |-> 0] ELSE buf[b]]
                      /\ UNCHANGED <<nid, out>>
         [] s.k = "ret" -> Return
Finish == /\ steps >= 0 /\ (fr = <<>> \/ steps >= Bound) /\ steps' = -1
          /\ PrintT("@@" \o ToJson([pid |-> pid, done |-> fr = <<>>, out |-> out]))
          /\ UNCHANGED <<pid, fr, buf, nid, fuel, out>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
(* a buffer that is held live belongs to an activation that exists *)
TypeOK == \A b \in DOMAIN buf : buf[b].id # 0 => \E j \in DOMAIN fr : fr[j].id = buf[b].id
=============================================================================
