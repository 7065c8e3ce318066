-------------------------------- MODULE CExit --------------------------------
(* Start-up and termination.  A program is a set of functions made of actions:
   log a number (or the arguments, or a variable of the environment), register a function to be called at exit, call a function,
   exit.  Constructors run before main; when main returns or exit is called the
   registered functions run, the most recently registered first, including the
   ones registered meanwhile; then the destructors run, in an order C does not
   fix; then the program ends with the given status and everything that was
   written is in the files.  Registration must succeed for at least 32
   functions; beyond that it may be refused.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Guaranteed == 32

VARIABLES pid, phase, todo, stack, regs, status, dtors, log
vars == <<pid, phase, todo, stack, regs, status, dtors, log>>
P == Cases[pid]
Body(f) == P.funs[f]

Init == /\ pid \in DOMAIN Cases /\ phase = "ctor" /\ todo = Cases[pid].ctors /\ stack = <<>> /\ regs = <<>>
        /\ status = 0 /\ dtors = {Cases[pid].dtors[j] : j \in DOMAIN Cases[pid].dtors} /\ log = <<>>

(* what the program can observe of its start-up: its arguments, and the first
   environment string NAME=VALUE with the name it asks for *)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE <<2000 + Len(q[1])>> \o q[1] \o Flat(Tail(q))
RECURSIVE Lookup(_, _)
Lookup(name, env) == IF env = <<>> THEN <<3001>>
                     ELSE IF env[1][1] = name THEN <<3000>> \o env[1][2] ELSE Lookup(name, Tail(env))
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Rest == Append(Pop, Tail(Top))

(* nothing is being executed: the next function to run *)
Dispatch ==
  /\ phase \in {"ctor", "main", "exit", "dtor"} /\ stack = <<>>
  /\ CASE phase = "ctor" -> IF todo = <<>> THEN /\ phase' = "main" /\ stack' = <<Body(P.main)>> /\ UNCHANGED <<todo, regs, dtors, status>>
                            ELSE /\ stack' = <<Body(todo[1])>> /\ todo' = Tail(todo) /\ UNCHANGED <<phase, regs, dtors, status>>
       [] phase = "main" -> phase' = "exit" /\ status' = P.ret /\ UNCHANGED <<todo, stack, regs, dtors>>
       [] phase = "exit" -> IF regs = <<>> THEN phase' = "dtor" /\ UNCHANGED <<todo, stack, regs, dtors, status>>
                            ELSE /\ stack' = <<Body(regs[Len(regs)])>> /\ regs' = SubSeq(regs, 1, Len(regs) - 1) /\ UNCHANGED <<phase, todo, dtors, status>>
       [] phase = "dtor" -> IF dtors = {} THEN phase' = "end" /\ UNCHANGED <<todo, stack, regs, dtors, status>>
                            ELSE \E d \in dtors : stack' = <<Body(d)>> /\ dtors' = dtors \ {d} /\ UNCHANGED <<phase, todo, regs, status>>
  /\ UNCHANGED <<pid, log>>
Act ==
  /\ phase # "end" /\ stack # <<>>
  /\ UNCHANGED <<pid, todo, dtors>>
  /\ IF Top = <<>> THEN stack' = Pop /\ UNCHANGED <<phase, regs, status, log>>
     ELSE LET a == Top[1] IN
       CASE a.k = "log" -> stack' = Rest /\ log' = Append(log, a.n) /\ UNCHANGED <<phase, regs, status>>
         [] a.k = "args" -> stack' = Rest /\ log' = log \o <<2000 + Len(P.args)>> \o Flat(P.args) /\ UNCHANGED <<phase, regs, status>>
         [] a.k = "env" -> stack' = Rest /\ log' = log \o Lookup(a.name, P.env) /\ UNCHANGED <<phase, regs, status>>
         [] a.k = "call" -> stack' = Append(Rest, Body(a.f)) /\ UNCHANGED <<phase, regs, status, log>>
         [] a.k = "reg" -> /\ stack' = Rest /\ UNCHANGED <<phase, status>>
                           /\ \/ regs' = Append(regs, a.f) /\ log' = Append(log, 1000)
                              \/ Len(regs) >= Guaranteed /\ regs' = regs /\ log' = Append(log, 1001)
         [] a.k = "exit" -> phase' = "exit" /\ stack' = <<>> /\ status' = a.n /\ UNCHANGED <<regs, log>>
Finish == /\ phase = "end" /\ phase' = "over"
          /\ PrintT("@@" \o ToJson([pid |-> pid, status |-> status, log |-> log]))
          /\ UNCHANGED <<pid, todo, stack, regs, status, dtors, log>>
Next == Dispatch \/ Act \/ Finish
Spec == Init /\ [][Next]_vars
(* exit is called once, and nothing is left to run when the program ends *)
TypeOK == phase \in {"end", "over"} => regs = <<>> /\ dtors = {} /\ stack = <<>>
=============================================================================
