------------------------------- MODULE CStdio -------------------------------
(* Standard I/O.  A stream is a position in a byte sequence: a file, or the
   memory of an open_memstream / fmemopen stream.  The state is the contents
   of the files and the open streams; every library call is one transition
   which gives the result the program must see.  Buffers do not exist here:
   whatever the library buffers must not be observable, except that a file's
   contents may be looked at from outside only when nothing is pending.
   Calls C leaves undefined (a write right after a read, flushing an input
   stream, a second push-back) are skipped.                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets
Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES pid, i, fs, st, outs
vars == <<pid, i, fs, st, outs>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Zero(n) == [j \in 1..n |-> 0]
(* overwrite or extend d with s from position p on *)
Splice(d, p, s) == IF s = <<>> THEN d
                   ELSE LET e == IF p > Len(d) THEN d \o Zero(p - Len(d)) ELSE d
                        IN SubSeq(e, 1, p) \o s \o SubSeq(e, p + Len(s) + 1, Len(e))
Closed == [kind |-> "closed"]
Absent == <<-1>>

(* the contents of the stream's sequence *)
Data(s) == IF s.kind = "file" THEN fs[s.name] ELSE s.data
Open(s) == s.kind # "closed"
(* where the next character comes from *)
Cur(s) == s.pos - (IF s.un >= 0 THEN 1 ELSE 0)

Undef == [ok |-> FALSE]
(* result r, stream s, its new data d *)
Do(r, s, d) == [ok |-> TRUE, r |-> r, s |-> s, d |-> d]

(* ---- reading n bytes: [bytes, stream] *)
Take(s, n) ==
  IF n = 0 THEN [b |-> <<>>, s |-> s]
  ELSE LET u == IF s.un >= 0 THEN <<s.un>> ELSE <<>>
           have == Max(0, Len(Data(s)) - s.pos)
           k == IF s.eof /\ u = <<>> THEN 0 ELSE Min(n - Len(u), have)
           b == u \o SubSeq(Data(s), s.pos + 1, s.pos + k)
           hit == Len(b) < n
       IN [b |-> b, s |-> [s EXCEPT !.un = -1, !.pos = @ + k, !.eof = @ \/ hit, !.last = IF hit THEN "n" ELSE "r", !.fresh = FALSE]]
CanRead(s) == s.rd /\ s.last # "w"
(* length of the line that starts at the current place, at most n; includes the newline *)
RECURSIVE LineR(_, _, _, _)
LineR(d, p, k, n) == IF k >= n \/ p + k >= Len(d) THEN k ELSE IF d[p + k + 1] = 10 THEN k + 1 ELSE LineR(d, p, k + 1, n)
(* a line of at most n bytes; stops after a newline, so the end is hit only when it is looked for *)
Line(s, n) ==
  IF s.un = 10 /\ n > 0 THEN Take(s, 1)
  ELSE LET u == IF s.un >= 0 THEN 1 ELSE 0
           k == u + (IF s.eof /\ u = 0 THEN 0 ELSE LineR(Data(s), s.pos, 0, n - u))
           full == k = n \/ (k > u /\ Data(s)[s.pos + k - u] = 10)
           t == Take(s, k)
       IN IF full THEN t ELSE [t EXCEPT !.s.eof = TRUE, !.s.last = "n", !.s.un = -1, !.s.fresh = FALSE]

(* ---- writing *)
CanWrite(s) == s.wr /\ s.last # "r" /\ s.un < 0
Put(s, b, r) ==
  LET d == Data(s) p == IF s.app THEN Len(d) ELSE s.pos
  IN IF b = <<>> THEN Do(r, s, d)
     ELSE IF s.kind = "fixed" /\ p + Len(b) >= s.cap THEN Undef
     ELSE IF s.kind = "fixed" /\ p > Len(d) THEN Undef
     ELSE Do(r, [s EXCEPT !.pos = p + Len(b), !.last = "w", !.dirty = TRUE, !.fresh = FALSE], Splice(d, p, b))

(* an operation the mode does not allow fails; the stream is then only closed *)
Wrong(r, s) == IF s.kind # "file" THEN Undef ELSE Do(r, [s EXCEPT !.err = TRUE], Data(s))

N(v) == [k |-> "n", v |-> v]
B(v, b) == [k |-> "b", v |-> v, b |-> b]                     \* a count and bytes
(* what open_memstream reports: size, the bytes, whether a NUL ends them *)
Mem(v, s, d) == LET z == Min(s.pos, Len(d)) IN [k |-> "m", v |-> v, b |-> SubSeq(d, 1, z), nul |-> z = Len(d)]
Settle(s) == [s EXCEPT !.dirty = FALSE, !.last = IF @ = "w" THEN "f" ELSE @]

Beyond(s) == s.kind = "grow" /\ s.pos > Len(s.data)      \* sought past the end, nothing written there yet
Call(c, s) ==
  LET d == Data(s) IN
  CASE c.op = "getc" -> IF ~s.rd THEN Wrong(N(-1), s) ELSE IF ~CanRead(s) THEN Undef
                        ELSE LET t == Take(s, 1) IN Do(N(IF t.b = <<>> THEN -1 ELSE t.b[1]), t.s, d)
    [] c.op = "read" -> IF ~s.rd THEN Wrong(B(0, <<>>), s) ELSE IF ~CanRead(s) THEN Undef
                        ELSE LET t == Take(s, c.n * c.m) k == IF c.n = 0 THEN 0 ELSE Len(t.b) \div c.n
                             IN Do(B(k, SubSeq(t.b, 1, k * c.n)), t.s, d)
    [] c.op = "gets" -> IF ~s.rd THEN Undef ELSE IF ~CanRead(s) THEN Undef
                        ELSE IF c.n = 1 THEN Do(B(1, <<>>), s, d)
                        ELSE LET t == Line(s, c.n - 1) IN Do(B(IF t.b = <<>> THEN 0 ELSE 1, t.b), t.s, d)
    [] c.op = "getline" -> IF ~s.rd \/ ~CanRead(s) THEN Undef
                           ELSE LET t == Line(s, 100000) IN Do(B(IF t.b = <<>> THEN -1 ELSE Len(t.b), t.b), t.s, d)
    [] c.op = "ungetc" -> IF ~s.rd \/ ~CanRead(s) \/ s.last = "f" THEN Undef
                          ELSE IF c.n = -1 THEN Do(N(-1), s, d)
                          ELSE IF s.un >= 0 THEN Undef
                          ELSE LET u == ((c.n % 256) + 256) % 256 IN Do(N(u), [s EXCEPT !.un = u, !.eof = FALSE, !.last = "r", !.fresh = FALSE], d)
    [] c.op = "putc" -> IF ~s.wr THEN Wrong(N(-1), s) ELSE IF ~CanWrite(s) THEN Undef
                        ELSE LET u == ((c.n % 256) + 256) % 256 IN Put(s, <<u>>, N(u))
    [] c.op = "write" -> IF ~s.wr THEN Wrong(N(0), s) ELSE IF ~CanWrite(s) THEN Undef ELSE Put(s, c.b, N(IF c.n = 0 THEN 0 ELSE c.m))
    [] c.op = "puts" -> IF ~s.wr \/ ~CanWrite(s) THEN Undef ELSE Put(s, c.b, [k |-> "t", v |-> 1])          \* success: not negative
    [] c.op = "putsnl" -> IF ~s.wr \/ ~CanWrite(s) THEN Undef ELSE Put(s, c.b \o <<10>>, [k |-> "t", v |-> 1])   \* puts, on stdout
    [] c.op = "printf" -> IF ~s.wr \/ ~CanWrite(s) THEN Undef ELSE Put(s, c.b, N(Len(c.b)))
    [] c.op = "seek" -> LET to == (CASE c.m = 0 -> 0 [] c.m = 1 -> Cur(s) [] c.m = 2 -> Len(d)) + c.n
                        IN IF s.un >= 0 /\ (s.pos = 0 \/ to < 0) /\ c.m = 1 THEN Undef
                           ELSE IF s.app /\ s.fresh /\ c.m = 1 THEN Undef
                           ELSE IF s.kind = "fixed" /\ (to < 0 \/ to > Len(d)) THEN Undef
                           ELSE IF to < 0 THEN (IF s.un >= 0 THEN Undef ELSE Do([k |-> "t", v |-> 0], Settle(s), d))
                           ELSE Do([k |-> "t", v |-> 1], [Settle(s) EXCEPT !.un = -1, !.eof = FALSE, !.pos = to, !.last = "n", !.fresh = FALSE], d)
    [] c.op = "tell" -> IF (s.un >= 0 /\ s.pos = 0) \/ (s.app /\ s.fresh) THEN Undef ELSE Do(N(Cur(s)), s, d)
    [] c.op = "eof" -> Do([k |-> "t", v |-> IF s.eof THEN 1 ELSE 0], s, d)
    [] c.op = "flush" -> IF s.last = "r" \/ s.un >= 0 \/ ~s.wr \/ Beyond(s) THEN Undef
                         ELSE IF s.kind = "grow" THEN Do(Mem(0, s, d), Settle(s), d) ELSE Do(N(0), Settle(s), d)
    [] c.op = "close" -> IF Beyond(s) THEN Undef ELSE IF s.kind = "grow" THEN Do(Mem(0, s, d), Closed, d)
                         ELSE IF s.kind = "fixed" /\ s.wr THEN Do([k |-> "f", v |-> 0, b |-> d, nul |-> d # <<>> /\ d[Len(d)] # 0 /\ s.pos = Len(d)], Closed, d)
                         ELSE Do(N(0), Closed, d)

(* A device that takes no byte.  When a byte is lost is not determined, that it is reported is:
   by the call that closes the stream at the latest.  "l": this call or an earlier one failed.  *)
FullCall(c, s) ==
  LET t == [s EXCEPT !.dirty = @ \/ c.b # <<>>, !.last = "w"] IN
  CASE c.op \in {"putc", "write", "puts", "printf"} -> Do([k |-> "x", v |-> 0], [t EXCEPT !.dirty = @ \/ c.op = "putc"], <<>>)
    [] c.op = "flush" -> IF ~s.dirty THEN Do(N(0), s, <<>>) ELSE Do([k |-> "l", v |-> 0], [s EXCEPT !.err = TRUE], <<>>)
    [] c.op = "close" -> IF ~s.dirty THEN Do(N(0), Closed, <<>>) ELSE Do([k |-> "l", v |-> 0], Closed, <<>>)
    [] OTHER -> Undef

Stream(k, nm, rd, wr, app, data, cap) ==
  [kind |-> k, name |-> nm, rd |-> rd, wr |-> wr, app |-> app, pos |-> 0, eof |-> FALSE, un |-> -1, err |-> FALSE, last |-> "n", dirty |-> FALSE, fresh |-> TRUE, data |-> data, cap |-> cap]
Users(nm, slot) == {q \in DOMAIN st : q # slot /\ st[q].kind = "file" /\ st[q].name = nm}
OpenCall(c) ==
  IF Open(st[c.s]) THEN Undef
  ELSE IF c.op = "memstream" THEN [ok |-> TRUE, r |-> N(1), s |-> Stream("grow", "", FALSE, TRUE, FALSE, <<>>, 0), fs |-> fs]
  ELSE IF c.op = "tmpfile" THEN [ok |-> TRUE, r |-> N(1), s |-> Stream("file", c.name, TRUE, TRUE, FALSE, <<>>, 0), fs |-> [fs EXCEPT ![c.name] = <<>>]]
  ELSE IF c.op = "full" THEN [ok |-> TRUE, r |-> N(1), s |-> Stream("full", "", FALSE, TRUE, FALSE, <<>>, 0), fs |-> fs]
  ELSE IF c.op = "memopen" THEN [ok |-> TRUE, r |-> N(1), fs |-> fs,
                                 s |-> IF c.mode = "r" THEN Stream("fixed", "", TRUE, FALSE, FALSE, c.b, Len(c.b)) ELSE Stream("fixed", "", FALSE, TRUE, FALSE, <<>>, c.n)]
  ELSE LET m == c.mode plus == m \in {"r+", "w+", "a+"} base == IF m \in {"r", "r+"} THEN "r" ELSE IF m \in {"w", "w+"} THEN "w" ELSE "a"
           writes == plus \/ base # "r"
           U == Users(c.name, c.s)
           s == Stream("file", c.name, base = "r" \/ plus, writes, base = "a", <<>>, 0)
       IN IF (writes /\ U # {}) \/ (\E q \in U : st[q].wr) THEN Undef
          ELSE IF base = "r" THEN (IF fs[c.name] = Absent THEN [ok |-> TRUE, r |-> N(0), s |-> Closed, fs |-> fs] ELSE [ok |-> TRUE, r |-> N(1), s |-> s, fs |-> fs])
          ELSE [ok |-> TRUE, r |-> N(1), s |-> s, fs |-> [fs EXCEPT ![c.name] = IF base = "w" \/ @ = Absent THEN <<>> ELSE @]]
RemoveCall(c) == IF Users(c.name, 0) # {} THEN Undef
                 ELSE [ok |-> TRUE, r |-> [k |-> "t", v |-> IF fs[c.name] = Absent THEN 0 ELSE 1], fs |-> [fs EXCEPT ![c.name] = Absent]]
(* look at a file from outside *)
LookCall(c) == IF \E q \in DOMAIN st : st[q].kind = "file" /\ st[q].name = c.name /\ st[q].dirty THEN Undef
               ELSE [ok |-> TRUE, r |-> IF fs[c.name] = Absent THEN B(-1, <<>>) ELSE B(Len(fs[c.name]), fs[c.name])]
FlushAll == IF \E q \in DOMAIN st : Open(st[q]) /\ (st[q].kind = "full" \/ st[q].last = "r" \/ st[q].un >= 0) THEN Undef ELSE [ok |-> TRUE, r |-> N(0)]

OpenOps == {"open", "memstream", "memopen", "tmpfile", "full"}
C == Cases[pid].calls[i]
Init == /\ pid \in DOMAIN Cases /\ i = 1 /\ fs = Cases[pid].fs
        /\ st = [q \in 1..Cases[pid].slots |->
                   IF q = 1 /\ Cases[pid].stdin # Absent THEN [Stream("pipe", "", TRUE, FALSE, FALSE, Cases[pid].stdin, 0) EXCEPT !.fresh = FALSE]
                   ELSE IF q = 2 THEN Stream("file", "stdout", FALSE, TRUE, FALSE, <<>>, 0) ELSE Closed]
        /\ outs = <<>>
Step ==
  /\ i >= 1 /\ i <= Len(Cases[pid].calls)
  /\ i' = i + 1 /\ pid' = pid
  /\ LET r == IF C.op \in OpenOps THEN OpenCall(C)
              ELSE IF C.op = "remove" THEN RemoveCall(C)
              ELSE IF C.op = "look" THEN LookCall(C)
              ELSE IF C.op = "flushall" THEN FlushAll
              ELSE IF ~Open(st[C.s]) THEN Undef
              ELSE IF st[C.s].err /\ C.op # "close" THEN Undef
              ELSE IF C.op = "putsnl" /\ C.s # 2 THEN Undef
              ELSE IF (st[C.s].kind = "pipe" \/ C.s = 2) /\ C.op \in {"seek", "tell", "close"} THEN Undef
              ELSE IF st[C.s].kind = "full" THEN FullCall(C, st[C.s])
              ELSE Call(C, st[C.s])
     IN IF ~r.ok THEN outs' = Append(outs, [ok |-> FALSE]) /\ UNCHANGED <<fs, st>>
        ELSE /\ outs' = Append(outs, [ok |-> TRUE, r |-> r.r])
             /\ IF C.op \in OpenOps THEN fs' = r.fs /\ st' = [st EXCEPT ![C.s] = r.s]
                ELSE IF C.op = "remove" THEN fs' = r.fs /\ UNCHANGED st
                ELSE IF C.op = "look" THEN UNCHANGED <<fs, st>>
                ELSE IF C.op = "flushall" THEN UNCHANGED fs /\ st' = [q \in DOMAIN st |-> IF Open(st[q]) THEN Settle(st[q]) ELSE st[q]]
                ELSE IF st[C.s].kind = "file" THEN fs' = [fs EXCEPT ![st[C.s].name] = r.d] /\ st' = [st EXCEPT ![C.s] = r.s]
                ELSE UNCHANGED fs /\ st' = [st EXCEPT ![C.s] = IF Open(r.s) THEN [r.s EXCEPT !.data = r.d] ELSE r.s]
(* normal program exit writes whatever is pending: the files hold their contents *)
Finish == /\ i > Len(Cases[pid].calls) /\ i' = 0
          /\ PrintT("@@" \o ToJson([pid |-> pid, outs |-> outs, fs |-> fs]))
          /\ UNCHANGED <<pid, fs, st, outs>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == /\ \A q \in DOMAIN st : Open(st[q]) => st[q].pos >= 0 /\ (st[q].eof => st[q].un < 0)
          /\ \A f \in DOMAIN fs : fs[f] # Absent => \A j \in DOMAIN fs[f] : fs[f][j] \in 0..255
=============================================================================
