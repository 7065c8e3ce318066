------------------------------- MODULE CSort -------------------------------
(* qsort and bsearch.  An array is a sequence of elements <<key, identity>>;
   a comparison function is a rank on keys (any consistent comparison orders
   a finite set that way; ties are allowed).  qsort may take the array to any
   state that is a permutation of it in non-decreasing rank: the relation
   Sorted x Permutation, not one particular outcome.  bsearch on a sorted
   array may answer with any element of the key's rank, and with NULL (-1)
   exactly when there is none.  Recorded outcomes are checked against it.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)

Rank(o, k) == CASE o = "asc" -> k
                [] o = "desc" -> 0 - k
                [] o = "const" -> 0
                [] o = "mod3" -> k % 3
                [] o = "half" -> k \div 2
                [] o = "low4" -> 0 - (k % 16)
Sorted(o, s) == \A j \in 1..(Len(s) - 1) : Rank(o, s[j][1]) <= Rank(o, s[j + 1][1])
Count(s, x) == Cardinality({j \in DOMAIN s : s[j] = x})
(* elements that carry their identity: each identity once, each unchanged *)
PermIds(a, b) == /\ Len(a) = Len(b)
                 /\ Cardinality({b[j][2] : j \in DOMAIN b}) = Len(b)
                 /\ \A j \in DOMAIN b : b[j][2] \in DOMAIN a /\ b[j] = a[b[j][2]]
PermBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in {a[j] : j \in DOMAIN a} \cup {b[j] : j \in DOMAIN b} : Count(a, x) = Count(b, x)

VARIABLES pid, ph, arr, why
vars == <<pid, ph, arr, why>>
C == Cases[pid]
Init == pid \in DOMAIN Cases /\ ph = "given" /\ arr = Cases[pid].a /\ why = ""
(* the qsort transition *)
Sort == /\ ph = "given" /\ ph' = "sorted" /\ pid' = pid
        /\ arr' = C.b
        /\ why' = IF ~(IF C.ids THEN PermIds(C.a, C.b) ELSE PermBag(C.a, C.b)) THEN "not a permutation of the input"
                  ELSE IF ~Sorted(C.o, C.b) THEN "not in order"
                  ELSE IF C.spill # 0 THEN "bytes outside the array were written"
                  ELSE IF C.torn # 0 THEN "an element was torn" ELSE ""
(* each bsearch leaves the array as it is: query <<key, answer, calls with wrong operands>> *)
Search == /\ ph = "sorted" /\ ph' = "done" /\ UNCHANGED <<pid, arr>>
          /\ LET R == {Rank(C.o, arr[j][1]) : j \in DOMAIN arr}
                 Bad(q) == IF q[3] # 0 THEN "comparison called with operands in the wrong places"
                           ELSE IF q[2] = -1 THEN (IF Rank(C.o, q[1]) \in R THEN "an existing element was not found" ELSE "")
                           ELSE IF q[2] < 0 \/ q[2] >= Len(arr) THEN "answer outside the array"
                           ELSE IF Rank(C.o, arr[q[2] + 1][1]) # Rank(C.o, q[1]) THEN "a non-matching element was returned" ELSE ""
                 B == {j \in DOMAIN C.q : Bad(C.q[j]) # ""}
             IN why' = IF why # "" \/ B = {} THEN why ELSE Bad(C.q[CHOOSE j \in B : TRUE])
Finish == /\ ph = "done" /\ ph' = "end" /\ UNCHANGED <<pid, arr, why>>
          /\ PrintT("@@" \o ToJson([pid |-> pid, why |-> why]))
Next == Sort \/ Search \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == ph \in {"sorted", "done", "end"} /\ why = "" => Sorted(C.o, arr)
=============================================================================
