------------------------------ MODULE CPosix ------------------------------
(* The system interface a program sees through the library: a tree of files
   and directories, open file descriptions shared by processes, descriptors,
   pipes, a stack of processes (a parent waits for its child), and the
   pseudo-random generators.  Each call of a history is one transition which
   either has one permitted observation - result, error number, data - or is
   left out because POSIX leaves it open (obs = <<>>).
   The process owns every file and is not privileged.                       *)
EXTENDS BigNat, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
ENOENT == 2  ENOEXEC == 8  EBADF == 9  ECHILD == 10  EACCES == 13  EEXIST == 17  ENOTDIR == 20
EISDIR == 21  EINVAL == 22  ENOTTY == 25  ESPIPE == 29  ERANGE == 34  ENOTEMPTY == 39
MaxFd == 15
NoFds == [i \in 0..MaxFd |-> 0]
File(mode) == [k |-> "f", mode |-> mode, data |-> <<>>, ent |-> <<>>, up |-> 0, nl |-> 1]
Dir(mode, up) == [k |-> "d", mode |-> mode, data |-> <<>>, ent |-> <<>>, up |-> up, nl |-> 1]
(* descriptor 0 is an empty device, 1 and 2 are kept for the program's report *)
Start(c) == [nodes |-> <<Dir(493, 0)>>, ofds |-> <<[k |-> "n", n |-> 0, off |-> 0, app |-> FALSE, rd |-> TRUE, wr |-> FALSE],
                                                   [k |-> "o", n |-> 0, off |-> 0, app |-> FALSE, rd |-> FALSE, wr |-> FALSE]>>,
             pipes |-> <<>>, ps |-> <<[fds |-> [NoFds EXCEPT ![0] = 1, ![1] = 2, ![2] = 2], cwd |-> 1, x48 |-> <<>>, xs |-> [i \in 1..3 |-> NFromInt(0)]]>>, tmp |-> 0]
Bit(mode, b) == (mode \div b) % 2 = 1
R == 256  W == 128  X == 64
Cur(S) == S.ps[Len(S.ps)]
Lookup(nd, name) == LET i == {i \in DOMAIN nd.ent : nd.ent[i][1] = name} IN IF i = {} THEN 0 ELSE nd.ent[CHOOSE j \in i : TRUE][2]
RECURSIVE WalkR(_, _, _, _)
WalkR(S, at, p, i) ==
  LET d == S.nodes[at]  last == i = Len(p) IN
  IF d.k # "d" THEN [st |-> "err", e |-> ENOTDIR]
  ELSE IF ~Bit(d.mode, X) THEN [st |-> "err", e |-> EACCES]
  ELSE LET n == IF p[i] = "." THEN at ELSE IF p[i] = ".." THEN d.up ELSE Lookup(d, p[i]) IN
       IF p[i] = ".." /\ n = 0 THEN [st |-> "undef"]
       ELSE IF last THEN [st |-> IF n = 0 THEN "none" ELSE "ok", dir |-> at, name |-> p[i], n |-> n, dot |-> p[i] \in {".", ".."}]
       ELSE IF n = 0 THEN [st |-> "err", e |-> ENOENT]
       ELSE WalkR(S, n, p, i + 1)
Walk(S, p) == IF p = <<>> THEN [st |-> "err", e |-> ENOENT] ELSE WalkR(S, Cur(S).cwd, p, 1)
(* results: a state and an observation <<result, errno, data...>>; <<>> = left open *)
Ok(S, r, x) == [s |-> S, obs |-> <<r, 0>> \o x]
Err(S, e) == [s |-> S, obs |-> <<-1, e>>]
Undef(S) == [s |-> S, obs |-> <<>>]
Free(S) == {f \in 0..MaxFd : Cur(S).fds[f] = 0}
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
SetFd(S, f, o) == [S EXCEPT !.ps[Len(S.ps)].fds[f] = o]
NewOfd(S, f, o) == SetFd([S EXCEPT !.ofds = Append(@, o)], f, Len(S.ofds) + 1)
Ofd(k, n, rd, wr, app) == [k |-> k, n |-> n, off |-> 0, app |-> app, rd |-> rd, wr |-> wr]
Valid(S, f) == f \in 0..MaxFd /\ Cur(S).fds[f] # 0
At(S, f) == S.ofds[Cur(S).fds[f]]
AddEnt(S, d, name, n) == [S EXCEPT !.nodes[d].ent = Append(@, <<name, n>>)]
DelEnt(S, d, name) == [S EXCEPT !.nodes[d].ent = SelectSeq(@, LAMBDA e : e[1] # name)]
Umasked(c, m) == LET b == {128, 256, 64, 32, 16, 8, 4, 2, 1} IN
  LET F[s \in SUBSET b] == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN F[s \ {x}] + (IF Bit(m, x) /\ ~Bit(c.umask, x) THEN x ELSE 0) IN F[b]
Plain(m) == m % 512
Temps == {"#" \o ToString(i) : i \in 0..7}                 \* names mkstemp gives; nothing else makes them
Open(c, S, op) ==
  LET w == Walk(S, op.p)  fl == {op.fl[i] : i \in DOMAIN op.fl}
      wr == fl \cap {"O_WRONLY", "O_RDWR"} # {}  rd == ~("O_WRONLY" \in fl)  creat == "O_CREAT" \in fl  tr == "O_TRUNC" \in fl
  IN IF Free(S) = {} \/ w.st = "undef" \/ (tr /\ ~wr) \/ ("O_EXCL" \in fl /\ ~creat) THEN Undef(S)
     ELSE IF w.st = "err" THEN Err(S, w.e)
     ELSE IF w.st = "none" THEN
        IF ~creat THEN Err(S, ENOENT)
        ELSE IF ~Bit(S.nodes[w.dir].mode, W) THEN Err(S, EACCES)
        ELSE IF w.name \in Temps THEN Undef(S)
        ELSE LET n == Len(S.nodes) + 1  f == MinOf(Free(S)) IN
             Ok(NewOfd(AddEnt([S EXCEPT !.nodes = Append(@, File(Umasked(c, op.m)))], w.dir, w.name, n), f, Ofd("f", n, rd, wr, "O_APPEND" \in fl)), f, <<>>)
     ELSE LET nd == S.nodes[w.n]  f == MinOf(Free(S)) IN
        IF creat /\ "O_EXCL" \in fl THEN Err(S, EEXIST)
        ELSE IF nd.k = "d" /\ (creat \/ wr) THEN Err(S, EISDIR)
        ELSE IF (rd /\ ~Bit(nd.mode, R)) \/ (wr /\ ~Bit(nd.mode, W)) THEN Err(S, EACCES)
        ELSE Ok(NewOfd(IF tr THEN [S EXCEPT !.nodes[w.n].data = <<>>] ELSE S, f, Ofd(nd.k, w.n, rd, wr, "O_APPEND" \in fl)), f, <<>>)
Sees(S, q) == UNION {{S.ps[i].fds[f] : f \in 0..MaxFd} : i \in DOMAIN S.ps} \cap {o \in DOMAIN S.ofds : S.ofds[o].n = q}
Ends(S, q, k) == {o \in Sees(S, q) : S.ofds[o].k = k}
Min2(a, b) == IF a < b THEN a ELSE b
Read(S, op) ==
  IF ~Valid(S, op.fd) THEN Err(S, EBADF)
  ELSE LET o == At(S, op.fd)  oi == Cur(S).fds[op.fd] IN
    IF o.k = "o" THEN Undef(S)
    ELSE IF ~o.rd THEN Err(S, EBADF)
    ELSE IF o.k = "n" THEN Ok(S, 0, <<>>)
    ELSE IF o.k = "d" THEN IF op.n = 0 THEN Undef(S) ELSE Err(S, EISDIR)
    ELSE IF o.k = "r" THEN
       LET d == S.pipes[o.n]  k == Min2(op.n, Len(d)) IN
       IF op.n = 0 \/ (d = <<>> /\ Ends(S, o.n, "w") # {}) THEN Undef(S)
       ELSE Ok([S EXCEPT !.pipes[o.n] = SubSeq(d, k + 1, Len(d))], k, SubSeq(d, 1, k))
    ELSE LET d == S.nodes[o.n].data  k == IF o.off >= Len(d) THEN 0 ELSE Min2(op.n, Len(d) - o.off) IN
         Ok([S EXCEPT !.ofds[oi].off = @ + k], k, SubSeq(d, o.off + 1, o.off + k))
Put(d, at, b) == [i \in 1..(IF at + Len(b) > Len(d) THEN at + Len(b) ELSE Len(d)) |->
                    IF i > at /\ i <= at + Len(b) THEN b[i - at] ELSE IF i <= Len(d) THEN d[i] ELSE 0]
Write(S, op) ==
  IF ~Valid(S, op.fd) THEN Err(S, EBADF)
  ELSE LET o == At(S, op.fd)  oi == Cur(S).fds[op.fd]  n == Len(op.b) IN
    IF o.k = "o" THEN Undef(S)
    ELSE IF ~o.wr THEN Err(S, EBADF)
    ELSE IF o.k = "w" THEN IF Ends(S, o.n, "r") = {} \/ n = 0 THEN Undef(S) ELSE Ok([S EXCEPT !.pipes[o.n] = @ \o op.b], n, <<>>)
    ELSE LET at == IF o.app THEN Len(S.nodes[o.n].data) ELSE o.off IN
         IF n = 0 THEN Ok(S, 0, <<>>)
         ELSE IF at + n > 400 THEN Undef(S)
         ELSE Ok([S EXCEPT !.nodes[o.n].data = Put(@, at, op.b), !.ofds[oi].off = at + n], n, <<>>)
Seek(S, op) ==
  IF ~Valid(S, op.fd) THEN Err(S, EBADF)
  ELSE LET o == At(S, op.fd)  oi == Cur(S).fds[op.fd] IN
    IF o.k \in {"r", "w"} THEN IF op.w \in 0..2 THEN Err(S, ESPIPE) ELSE Undef(S)
    ELSE IF o.k # "f" THEN Undef(S)
    ELSE IF op.w \notin 0..2 THEN IF op.w \in 3..4 THEN Undef(S) ELSE Err(S, EINVAL)
    ELSE LET b == CASE op.w = 0 -> 0 [] op.w = 1 -> o.off [] OTHER -> Len(S.nodes[o.n].data)  t == b + op.off IN
         IF t < 0 THEN Err(S, EINVAL) ELSE Ok([S EXCEPT !.ofds[oi].off = t], t, <<>>)
(* beyond the range of an int: there and back *)
Far(S, op) ==
  IF ~Valid(S, op.fd) \/ At(S, op.fd).k # "f" THEN Undef(S)
  ELSE Ok([S EXCEPT !.ofds[Cur(S).fds[op.fd]].off = op.off], op.off, <<1>>)
Close(S, op) ==
  IF ~Valid(S, op.fd) THEN Err(S, EBADF)
  ELSE IF At(S, op.fd).k = "o" THEN Undef(S)
  ELSE Ok(SetFd(S, op.fd, 0), 0, <<>>)
Dup(S, op) ==
  IF ~Valid(S, op.fd) THEN Err(S, EBADF)
  ELSE IF At(S, op.fd).k = "o" \/ Free(S) = {} THEN Undef(S)
  ELSE LET f == MinOf(Free(S)) IN Ok(SetFd(S, f, Cur(S).fds[op.fd]), f, <<>>)
Pipe(S, op) ==
  IF Cardinality(Free(S)) < 2 THEN Undef(S)
  ELSE LET a == MinOf(Free(S))  b == MinOf(Free(S) \ {a})  q == Len(S.pipes) + 1
           S1 == [S EXCEPT !.pipes = Append(@, <<>>)] IN
       Ok(NewOfd(NewOfd(S1, a, Ofd("r", q, TRUE, FALSE, FALSE)), b, Ofd("w", q, FALSE, TRUE, FALSE)), 0, <<a, b>>)
Unlink(S, op) ==
  LET w == Walk(S, op.p) IN
  IF w.st = "undef" THEN Undef(S) ELSE IF w.st = "err" THEN Err(S, w.e)
  ELSE IF w.dot THEN Undef(S)
  ELSE IF w.st = "none" THEN Err(S, ENOENT)
  ELSE IF ~Bit(S.nodes[w.dir].mode, W) THEN Err(S, EACCES)
  ELSE IF S.nodes[w.n].k = "d" THEN Err(S, EISDIR)
  ELSE Ok([DelEnt(S, w.dir, w.name) EXCEPT !.nodes[w.n].nl = 0], 0, <<>>)
Busy(S, n) == (\E i \in DOMAIN S.ps : S.ps[i].cwd = n) \/ \E i \in DOMAIN S.ps : \E f \in 0..MaxFd : S.ps[i].fds[f] # 0 /\ LET o == S.ofds[S.ps[i].fds[f]] IN o.k = "d" /\ o.n = n
Rmdir(S, op) ==
  LET w == Walk(S, op.p) IN
  IF w.st = "undef" THEN Undef(S) ELSE IF w.st = "err" THEN Err(S, w.e)
  ELSE IF w.dot THEN IF w.name = "." THEN Err(S, EINVAL) ELSE Err(S, ENOTEMPTY)
  ELSE IF w.st = "none" THEN Err(S, ENOENT)
  ELSE IF ~Bit(S.nodes[w.dir].mode, W) THEN Err(S, EACCES)
  ELSE IF S.nodes[w.n].k # "d" THEN Err(S, ENOTDIR)
  ELSE IF S.nodes[w.n].ent # <<>> THEN Err(S, ENOTEMPTY)
  ELSE IF Busy(S, w.n) THEN Undef(S)
  ELSE Ok(DelEnt(S, w.dir, w.name), 0, <<>>)
Mkdir(c, S, op) ==
  LET w == Walk(S, op.p) IN
  IF w.st = "undef" THEN Undef(S) ELSE IF w.st = "err" THEN Err(S, w.e)
  ELSE IF w.st = "ok" THEN Err(S, EEXIST)
  ELSE IF ~Bit(S.nodes[w.dir].mode, W) THEN Err(S, EACCES)
  ELSE IF w.name \in Temps THEN Undef(S)
  ELSE Ok(AddEnt([S EXCEPT !.nodes = Append(@, Dir(Umasked(c, op.m), w.dir))], w.dir, w.name, Len(S.nodes) + 1), 0, <<>>)
Chdir(S, op) ==
  LET w == Walk(S, op.p) IN
  IF w.st = "undef" THEN Undef(S) ELSE IF w.st = "err" THEN Err(S, w.e)
  ELSE IF w.st = "none" THEN Err(S, ENOENT)
  ELSE IF S.nodes[w.n].k # "d" THEN Err(S, ENOTDIR)
  ELSE IF ~Bit(S.nodes[w.n].mode, X) THEN Err(S, EACCES)
  ELSE Ok([S EXCEPT !.ps[Len(S.ps)].cwd = w.n], 0, <<>>)
Chmod(S, op) ==
  LET w == Walk(S, op.p) IN
  IF w.st = "undef" THEN Undef(S) ELSE IF w.st = "err" THEN Err(S, w.e)
  ELSE IF w.st = "none" THEN Err(S, ENOENT)
  ELSE IF w.n = 1 THEN Undef(S)                          \* the scratch directory itself is left alone
  ELSE Ok([S EXCEPT !.nodes[w.n].mode = op.m], 0, <<>>)
(* the path of a directory below the root of the tree *)
RECURSIVE NameOf(_, _)
NameOf(S, n) == IF n = 1 THEN <<>> ELSE LET d == S.nodes[n].up IN Append(NameOf(S, d), (CHOOSE e \in {S.nodes[d].ent[i] : i \in DOMAIN S.nodes[d].ent} : e[2] = n)[1])
RECURSIVE PLen(_, _)
PLen(q, i) == IF i > Len(q) THEN 0 ELSE 1 + Len(q[i]) + PLen(q, i + 1)
RECURSIVE Search(_, _)                                  \* every directory above the current one can be read
Search(S, n) == IF n = 1 THEN TRUE ELSE LET d == S.nodes[n].up IN Bit(S.nodes[d].mode, R) /\ Bit(S.nodes[d].mode, X) /\ Search(S, d)
Getcwd(S, op) ==                                        \* op.k: the size less the length of the root's name
  LET q == NameOf(S, Cur(S).cwd)  need == PLen(q, 1) + 1 IN
  IF ~Search(S, Cur(S).cwd) THEN Undef(S)
  ELSE IF op.k < need THEN Err(S, ERANGE) ELSE [s |-> S, obs |-> <<1, 0>> \o q]
StatOf(nd) == IF nd.k = "d" THEN <<16384 + Plain(nd.mode)>> ELSE <<32768 + Plain(nd.mode), Len(nd.data), nd.nl>>
Stat(S, op) ==
  LET w == Walk(S, op.p) IN
  IF w.st = "undef" THEN Undef(S) ELSE IF w.st = "err" THEN Err(S, w.e)
  ELSE IF w.st = "none" THEN Err(S, ENOENT) ELSE Ok(S, 0, StatOf(S.nodes[w.n]))
Fstat(S, op) ==
  IF ~Valid(S, op.fd) THEN Err(S, EBADF)
  ELSE LET o == At(S, op.fd) IN
    CASE o.k \in {"f", "d"} -> Ok(S, 0, StatOf(S.nodes[o.n]))
      [] o.k \in {"r", "w"} -> Ok(S, 0, <<4096>>)
      [] OTHER -> Undef(S)
Isatty(S, op) == IF ~Valid(S, op.fd) THEN [s |-> S, obs |-> <<0, EBADF>>] ELSE IF At(S, op.fd).k = "o" THEN Undef(S) ELSE [s |-> S, obs |-> <<0, ENOTTY>>]
(* the same node seen through a descriptor and through a name *)
Same(S, op) ==
  LET w == Walk(S, op.p) IN
  IF w.st # "ok" \/ ~Valid(S, op.fd) \/ At(S, op.fd).k \notin {"f", "d"} THEN Undef(S)
  ELSE Ok(S, IF At(S, op.fd).n = w.n THEN 1 ELSE 0, <<>>)
Mkstemp(c, S, op) ==                                     \* op.x: number of X before the suffix
  IF Free(S) = {} \/ S.tmp >= 8 THEN Undef(S)
  ELSE IF op.x < 6 THEN Err(S, EINVAL)
  ELSE IF ~Bit(S.nodes[Cur(S).cwd].mode, W) \/ ~Bit(S.nodes[Cur(S).cwd].mode, X) THEN Undef(S)
  ELSE LET n == Len(S.nodes) + 1  f == MinOf(Free(S)) IN
       Ok([NewOfd(AddEnt([S EXCEPT !.nodes = Append(@, File(Umasked(c, 384)))], Cur(S).cwd, "#" \o ToString(S.tmp), n), f, Ofd("f", n, TRUE, TRUE, FALSE)) EXCEPT !.tmp = @ + 1], f, <<1>>)
Fork(S) == [s |-> [S EXCEPT !.ps = Append(@, Cur(S))], obs |-> <<1>>]
Leave(S, status, x) == [s |-> [S EXCEPT !.ps = SubSeq(@, 1, Len(S.ps) - 1)], obs |-> x \o <<1, 0, status>>]
Exec(S, op) ==                                           \* the new program reports its argument and the descriptor's position
  IF ~Valid(S, op.fd) \/ At(S, op.fd).k # "f" THEN Leave(S, op.c * 256, <<op.c, -1>>)
  ELSE Leave(S, op.c * 256, <<op.c, At(S, op.fd).off>>)
NoExec(S, op) ==
  LET w == Walk(S, op.p) IN
  IF w.st = "undef" THEN Undef(S) ELSE IF w.st = "err" THEN Err(S, w.e)
  ELSE IF w.st = "none" THEN Err(S, ENOENT)
  ELSE IF S.nodes[w.n].k = "d" \/ ~Bit(S.nodes[w.n].mode, X) THEN Err(S, EACCES) ELSE Undef(S)
(* X(n+1) = (aX(n) + c) mod 2^48 *)
A48 == NAdd(NMul(NFromInt(24046), NShl(NFromInt(1), 20)), NFromInt(845421))        \* 0x5DEECE66D
Lo48(n) == NDivMod(n, NShl(NFromInt(1), 48))[2]
Next48(x) == Lo48(NAdd(NMul(A48, x), NFromInt(11)))
Seeded(n) == NAdd(NShl(n, 16), NFromInt(13070))          \* 0x330E below 32 bits of seed
Rand48(S, op) ==
  IF op.g = "own" THEN LET y == Next48(Cur(S).xs[op.k]) IN [s |-> [S EXCEPT !.ps[Len(S.ps)].xs[op.k] = y], obs |-> <<[big |-> NDivMod(y, NShl(NFromInt(1), 17))[1]]>>]
  ELSE IF Cur(S).x48 = <<>> THEN Undef(S)                     \* not seeded
  ELSE LET y == Next48(Cur(S).x48) IN [s |-> [S EXCEPT !.ps[Len(S.ps)].x48 = y], obs |-> <<[big |-> NDivMod(y, NShl(NFromInt(1), 17))[1]]>>]
(* names *)
Slash(s, i) == s[i] = "/"
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 0 /\ s[Len(s)] = "/" THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
LastSlash(s) == LET k == {i \in DOMAIN s : s[i] = "/"} IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : j <= i
Base(s) == IF s = <<>> THEN <<".">> ELSE LET t == Strip(s) IN IF t = <<>> THEN <<"/">> ELSE SubSeq(t, LastSlash(t) + 1, Len(t))
DirOf(s) == LET t == Strip(s) IN
  IF s = <<>> THEN <<".">> ELSE IF t = <<>> THEN <<"/">>
  ELSE IF LastSlash(t) = 0 THEN <<".">>
  ELSE LET u == Strip(SubSeq(t, 1, LastSlash(t))) IN IF u = <<>> THEN <<"/">> ELSE u
Names(S, op) == IF Len(op.s) >= 2 /\ op.s[1] = "/" /\ op.s[2] = "/" /\ ~(Len(op.s) >= 3 /\ op.s[3] = "/") THEN Undef(S)
                ELSE [s |-> S, obs |-> <<[base |-> Base(op.s), dir |-> DirOf(op.s)]>>]
Do(c, S, op) ==
  CASE op.o = "open" -> Open(c, S, op) [] op.o = "read" -> Read(S, op) [] op.o = "write" -> Write(S, op)
    [] op.o = "lseek" -> Seek(S, op) [] op.o = "far" -> Far(S, op) [] op.o = "close" -> Close(S, op)
    [] op.o = "dup" -> Dup(S, op) [] op.o \in {"pipe", "pipe2"} -> Pipe(S, op)
    [] op.o = "unlink" -> Unlink(S, op) [] op.o = "rmdir" -> Rmdir(S, op) [] op.o \in {"mkdir", "mkdirat"} -> Mkdir(c, S, op)
    [] op.o = "chdir" -> Chdir(S, op) [] op.o = "chmod" -> Chmod(S, op) [] op.o = "getcwd" -> Getcwd(S, op)
    [] op.o \in {"stat", "lstat", "fstatat"} -> Stat(S, op) [] op.o = "fstat" -> Fstat(S, op) [] op.o = "isatty" -> Isatty(S, op)
    [] op.o = "same" -> Same(S, op) [] op.o = "mkstemp" -> Mkstemp(c, S, op)
    [] op.o = "fork" -> Fork(S) [] op.o = "exit" -> Leave(S, op.c * 256, <<>>) [] op.o = "kill" -> Leave(S, 9, <<>>)
    [] op.o = "exec" -> Exec(S, op) [] op.o = "noexec" -> NoExec(S, op) [] op.o = "wait" -> Err(S, ECHILD)
    [] op.o = "srand48" -> [s |-> [S EXCEPT !.ps[Len(S.ps)].x48 = Seeded(op.v)], obs |-> <<0>>]
    [] op.o = "seed16" -> [s |-> [S EXCEPT !.ps[Len(S.ps)].xs[op.k] = op.v], obs |-> <<0>>]
    [] op.o = "rand48" -> Rand48(S, op) [] op.o = "names" -> Names(S, op)
    [] op.o \in {"randseq", "time"} -> [s |-> IF op.o = "randseq" THEN [S EXCEPT !.ps[Len(S.ps)].x48 = <<>>] ELSE S, obs |-> <<1>>]
VARIABLES pid, pc, S, out
vars == <<pid, pc, S, out>>
Init == pid \in DOMAIN Cases /\ pc = 1 /\ S = Start(Cases[pid]) /\ out = <<>>
Step == /\ pc <= Len(Cases[pid].ops)
        /\ LET r == Do(Cases[pid], S, Cases[pid].ops[pc]) IN S' = r.s /\ out' = Append(out, r.obs)
        /\ pc' = pc + 1 /\ UNCHANGED pid
Done == /\ pc = Len(Cases[pid].ops) + 1
        /\ PrintT("@@" \o ToJson([pid |-> pid, out |-> out]))
        /\ pc' = pc + 1 /\ UNCHANGED <<pid, S, out>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
(* every descriptor denotes a description, every entry a node whose parent it is, no file has two names *)
TypeOK == /\ \A i \in DOMAIN S.ps : \A f \in 0..MaxFd : S.ps[i].fds[f] \in 0..Len(S.ofds)
          /\ \A n \in DOMAIN S.nodes : \A i \in DOMAIN S.nodes[n].ent : LET e == S.nodes[n].ent[i] IN
                 e[2] \in DOMAIN S.nodes /\ (S.nodes[e[2]].k = "d" => S.nodes[e[2]].up = n) /\ S.nodes[e[2]].nl = 1
                 /\ \A j \in DOMAIN S.nodes[n].ent : S.nodes[n].ent[j][1] = e[1] => i = j
          /\ \A o \in DOMAIN S.ofds : S.ofds[o].off >= 0
          /\ Len(S.ps) >= 1 /\ S.ps[1].fds[1] = 2
=============================================================================
