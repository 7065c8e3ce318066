-------------------------------- MODULE CLex --------------------------------
(* The lexer as a machine.  The state is a position in the spliced text and
   the tokens found so far; each transition takes exactly one token.        *)
EXTENDS CTok, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES pid, pos, toks
vars == <<pid, pos, toks>>
Src == [p \in DOMAIN Cases |-> Splice(Cases[p].s)]
Init == pid \in DOMAIN Cases /\ pos = SkipWs(Src[pid], 1) /\ toks = <<>>
Step == /\ pos >= 1 /\ pos <= Len(Src[pid])
        /\ LET r == TokenAt(Cases[pid].g, Src[pid], pos)
           IN /\ toks' = Append(toks, [b |-> pos, e |-> r.next, tok |-> r.tok])
              /\ pos' = SkipWs(Src[pid], r.next)
        /\ pid' = pid
Finish == /\ pos > Len(Src[pid]) /\ pos' = 0
          /\ PrintT("@@" \o ToJson([pid |-> pid, toks |-> [i \in DOMAIN toks |-> [txt |-> Text(Src[pid], toks[i].b, toks[i].e), tok |-> toks[i].tok]]]))
          /\ UNCHANGED <<pid, toks>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
(* tokens are non-empty, in order, disjoint and separated only by white space and comments; an integer constant has the first type that holds it *)
TypeOK == \A i \in DOMAIN toks :
            /\ toks[i].e > toks[i].b /\ toks[i].e <= Len(Src[pid]) + 1
            /\ i > 1 => toks[i].b >= toks[i - 1].e /\ SkipWs(Src[pid], toks[i - 1].e) = toks[i].b
            /\ LET x == toks[i].tok IN x.k = "int" /\ x.t # "none" => FitsK(Cases[pid].g, x.t, x.w)
=============================================================================
