-------------------------------- MODULE Heap --------------------------------
(* The abstract heap.  Its state is the set of live blocks; malloc, calloc
   and realloc may place a new block anywhere that is aligned and disjoint
   from every live block (the specification says where a block must NOT be,
   never where it is), free removes a block, and contents never change
   except through the program.  Recorded histories of the real allocator are
   checked to be behaviours of this machine, step by step.

   An address is <<hi, lo>> with lo < 2^28, so that every address of the
   process is exact.  A block's contents are written by the program right
   after it is obtained (a pattern of its identity), so "contents intact" is
   the number of leading bytes that still carry the pattern.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
HI == 268435456

VARIABLES pid, i, live, bytes, peak, why
vars == <<pid, i, live, bytes, peak, why>>

Plus(a, n) == <<a[1] + (a[2] + n) \div HI, (a[2] + n) % HI>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Disjoint(a, n, b, m) == Leq(Plus(a, n), b) \/ Leq(Plus(b, m), a)
(* every block occupies at least one byte of its own: distinct blocks are distinct addresses *)
Room(n) == Max(n, 1)
Charge(n) == n + 64

(* may the allocator answer a request of n bytes with address a, given the live blocks L? *)
Place(L, a, n, al) == IF a[2] % al # 0 THEN "misaligned block"
                      ELSE IF \E b \in DOMAIN L : ~Disjoint(a, Room(n), L[b].a, Room(L[b].n)) THEN "block overlaps a live block"
                      ELSE ""
Drop(L, b) == [x \in DOMAIN L \ {b} |-> L[x]]
Put(L, b, a, n) == [x \in DOMAIN L \cup {b} |-> IF x = b THEN [a |-> a, n |-> n] ELSE L[x]]

(* the verdict on one recorded event, and the state after it *)
Judge(e, al) ==
  CASE e.op \in {"m", "c"} /\ ~e.null ->
         [why |-> IF e.huge THEN "a request that cannot be satisfied was answered with a block"
                  ELSE IF Place(live, e.a, e.n, al) # "" THEN Place(live, e.a, e.n, al)
                  ELSE IF e.op = "c" /\ e.zero # e.n THEN "calloc memory is not zero"
                  ELSE "", live |-> IF e.huge THEN live ELSE Put(live, e.b, e.a, e.n)]
    [] e.op \in {"m", "c"} /\ e.null -> [why |-> IF e.huge \/ e.n = 0 THEN "" ELSE "allocation failed", live |-> live]
    [] e.op = "r" ->
         LET old == IF e.b \in DOMAIN live THEN live[e.b].n ELSE 0
             L == IF e.b \in DOMAIN live THEN Drop(live, e.b) ELSE live
         IN [why |-> IF e.before # old THEN "contents of a live block changed"
                     ELSE IF e.huge THEN (IF e.null THEN (IF e.keep # old THEN "a failed realloc changed the block" ELSE "") ELSE "a request that cannot be satisfied was answered with a block")
                     ELSE IF e.n = 0 /\ e.null THEN ""
                     ELSE IF e.null THEN "allocation failed"
                     ELSE IF Place(L, e.a, e.n, al) # "" THEN Place(L, e.a, e.n, al)
                     ELSE IF e.keep # Min(old, e.n) THEN "realloc lost the contents"
                     ELSE "", live |-> IF e.huge THEN live ELSE IF e.null THEN L ELSE Put(L, e.b, e.a, e.n)]
    [] e.op = "f" -> [why |-> IF e.b \in DOMAIN live /\ e.before # live[e.b].n THEN "contents of a live block changed" ELSE "",
                      live |-> IF e.b \in DOMAIN live THEN Drop(live, e.b) ELSE live]
    [] e.op = "v" -> [why |-> IF \E k \in DOMAIN e.all : e.all[k][2] # live[e.all[k][1]].n THEN "contents of a live block changed" ELSE "", live |-> live]
    (* churn: a long random history summarised by the driver; extent in units of 16 bytes *)
    [] e.op = "x" -> [why |-> IF e.errs # 0 THEN "contents changed during churn"
                              ELSE IF e.ext > 8 * e.peak + 8192 THEN "heap grows under churn" ELSE "", live |-> live]
    (* extent so far against the peak of live bytes *)
    [] e.op = "e" -> [why |-> IF e.ext > (peak \div 2) + 8192 THEN "heap grows although memory was freed" ELSE "", live |-> live]

Sum(L) == LET RECURSIVE S(_)
              S(D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN Charge(L[x].n) + S(D \ {x})
          IN S(DOMAIN L)

Init == pid \in DOMAIN Cases /\ i = 1 /\ live = <<>> /\ bytes = 0 /\ peak = 0 /\ why = ""
Step == /\ i >= 1 /\ i <= Len(Cases[pid].ev) /\ why = ""
        /\ LET e == Cases[pid].ev[i] j == Judge(e, Cases[pid].al)
           IN /\ why' = j.why /\ live' = j.live
              /\ bytes' = IF j.live = live THEN bytes ELSE Sum(j.live)
              (* realloc may hold both blocks for a moment *)
              /\ peak' = Max(peak, IF e.op = "r" THEN bytes + Charge(e.n) ELSE bytes')
              /\ i' = i + 1
        /\ pid' = pid
Finish == /\ i >= 1 /\ (i > Len(Cases[pid].ev) \/ why # "")
          /\ PrintT("@@" \o ToJson([pid |-> pid, at |-> IF why = "" THEN 0 ELSE i - 1, why |-> why]))
          /\ i' = 0 /\ UNCHANGED <<pid, live, bytes, peak, why>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
(* the machine's own invariants: live blocks are aligned and pairwise disjoint as long as no event was rejected *)
TypeOK == why = "" => \A b \in DOMAIN live : /\ live[b].a[2] % Cases[pid].al = 0
                                             /\ \A c \in DOMAIN live \ {b} : Disjoint(live[b].a, Room(live[b].n), live[c].a, Room(live[c].n))
=============================================================================
