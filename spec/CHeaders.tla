------------------------------ MODULE CHeaders ------------------------------
(* What the standard headers say, derived from the data model of the target,
   the parameters of the floating formats, and the system's binary interface.
   The table of a target is a sequence of entries
     [k |-> "int",  h |-> header, n |-> macro, t |-> its type, v |-> its value]
     [k |-> "flo", ... r |-> packed value]     [k |-> "type", n, size, sg]
     [k |-> "is", h, e |-> an integer constant expression that must be true]
     [k |-> "fmt", ...]    print a value of a type with a PRI macro
   An integer value is <<negative, BigNat>>; types are C type names.          *)
EXTENDS FixReal, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)

Model(tg) == IF tg = "x64" THEN [char |-> 8, short |-> 16, int |-> 32, long |-> 64, llong |-> 64, ptr |-> 64]
             ELSE [char |-> 8, short |-> 16, int |-> 32, long |-> 32, llong |-> 64, ptr |-> 32]
P2(n) == NShl(One, n)
Max(w) == <<0, NSub(P2(w - 1), One)>>
Min(w) == <<1, P2(w - 1)>>
UMax(w) == <<0, NSub(P2(w), One)>>
N(i) == IF i < 0 THEN <<1, NFromInt(-i)>> ELSE <<0, NFromInt(i)>>
E(h, n, t, v) == [k |-> "int", h |-> h, n |-> n, t |-> t, v |-> v]
Pr(t) == "__typeof__(+(" \o t \o ")0)"                      \* the promoted type
Str(i) == ToString(i)

Limits(m) ==
  <<E("limits.h", "CHAR_BIT", "int", N(8)),
    E("limits.h", "SCHAR_MIN", "int", Min(8)), E("limits.h", "SCHAR_MAX", "int", Max(8)), E("limits.h", "UCHAR_MAX", "int", UMax(8)),
    E("limits.h", "SHRT_MIN", "int", Min(m.short)), E("limits.h", "SHRT_MAX", "int", Max(m.short)), E("limits.h", "USHRT_MAX", "int", UMax(m.short)),
    E("limits.h", "INT_MIN", "int", Min(m.int)), E("limits.h", "INT_MAX", "int", Max(m.int)), E("limits.h", "UINT_MAX", "unsigned int", UMax(m.int)),
    E("limits.h", "LONG_MIN", "long", Min(m.long)), E("limits.h", "LONG_MAX", "long", Max(m.long)), E("limits.h", "ULONG_MAX", "unsigned long", UMax(m.long)),
    E("limits.h", "LLONG_MIN", "long long", Min(m.llong)), E("limits.h", "LLONG_MAX", "long long", Max(m.llong)), E("limits.h", "ULLONG_MAX", "unsigned long long", UMax(m.llong))>>
Exact(w) == LET s == "int" \o Str(w)  u == "UINT" \o Str(w)  i == "INT" \o Str(w) IN
  <<E("stdint.h", i \o "_MIN", Pr(s \o "_t"), Min(w)), E("stdint.h", i \o "_MAX", Pr(s \o "_t"), Max(w)), E("stdint.h", u \o "_MAX", Pr("u" \o s \o "_t"), UMax(w)),
    [k |-> "type", h |-> "stdint.h", n |-> s \o "_t", size |-> w, sg |-> TRUE], [k |-> "type", h |-> "stdint.h", n |-> "u" \o s \o "_t", size |-> w, sg |-> FALSE]>>
Least(kind, w, sizes) == LET s == "int_" \o kind \o Str(w)  c == IF kind = "least" THEN "LEAST" ELSE "FAST" IN
  <<[k |-> "is", h |-> "stdint.h", need |-> <<"INT_" \o c \o Str(w) \o "_MAX">>, e |-> "sizeof(" \o s \o "_t) * 8 >= " \o Str(w) \o " && (" \o s \o "_t)-1 < 0 && (u" \o s \o "_t)-1 > 0"]>>
StdInt(m) ==
  Exact(8) \o Exact(16) \o Exact(32) \o Exact(64)
  \o <<E("stdint.h", "INTPTR_MIN", Pr("intptr_t"), Min(m.ptr)), E("stdint.h", "INTPTR_MAX", Pr("intptr_t"), Max(m.ptr)), E("stdint.h", "UINTPTR_MAX", Pr("uintptr_t"), UMax(m.ptr)),
       E("stdint.h", "INTMAX_MIN", Pr("intmax_t"), Min(64)), E("stdint.h", "INTMAX_MAX", Pr("intmax_t"), Max(64)), E("stdint.h", "UINTMAX_MAX", Pr("uintmax_t"), UMax(64)),
       E("stdint.h", "PTRDIFF_MIN", Pr("ptrdiff_t"), Min(m.ptr)), E("stdint.h", "PTRDIFF_MAX", Pr("ptrdiff_t"), Max(m.ptr)), E("stdint.h", "SIZE_MAX", Pr("size_t"), UMax(m.ptr)),
       [k |-> "type", h |-> "stdint.h", n |-> "intptr_t", size |-> m.ptr, sg |-> TRUE], [k |-> "type", h |-> "stdint.h", n |-> "uintptr_t", size |-> m.ptr, sg |-> FALSE],
       [k |-> "type", h |-> "stdint.h", n |-> "intmax_t", size |-> 64, sg |-> TRUE], [k |-> "type", h |-> "stdint.h", n |-> "uintmax_t", size |-> 64, sg |-> FALSE],
       [k |-> "type", h |-> "stddef.h", n |-> "size_t", size |-> m.ptr, sg |-> FALSE], [k |-> "type", h |-> "stddef.h", n |-> "ptrdiff_t", size |-> m.ptr, sg |-> TRUE],
       [k |-> "type", h |-> "sys/types.h", n |-> "ssize_t", size |-> m.ptr, sg |-> TRUE], [k |-> "type", h |-> "sys/types.h", n |-> "pid_t", size |-> 32, sg |-> TRUE]>>

(* the characteristics of a binary format with precision p and exponents emin..emax *)
RECURSIVE Log10R(_, _, _)
Log10R(n, p, k) == LET t == NMulS(p, 10, 0) IN IF NCmp(t, n) > 0 THEN k ELSE Log10R(n, t, k + 1)
Log10(n) == Log10R(n, One, 0)                            \* greatest k with 10^k <= n
Pack(f, u) == LET t == UEnc(f, u) IN [s |-> t[1], b |-> t[2], m |-> t[3]]
Fl(h, n, t, u) == [k |-> "flo", h |-> h, n |-> n, t |-> t, r |-> Pack(F64, u)]
Float(pre, t, p, emax) ==
  LET emin == 3 - emax IN
  <<E("float.h", pre \o "_MANT_DIG", "int", N(p)), E("float.h", pre \o "_DIG", "int", N(Log10(P2(p - 1)))),
    E("float.h", pre \o "_DECIMAL_DIG", "int", N(Log10(P2(p)) + 2)),
    E("float.h", pre \o "_MIN_EXP", "int", N(emin)), E("float.h", pre \o "_MAX_EXP", "int", N(emax)),
    E("float.h", pre \o "_MIN_10_EXP", "int", N(-Log10(P2(1 - emin)))), E("float.h", pre \o "_MAX_10_EXP", "int", N(Log10(NShl(NSub(P2(p), One), emax - p)))),
    Fl("float.h", pre \o "_MIN", t, UN(0, One, emin - 1)), Fl("float.h", pre \o "_MAX", t, UN(0, NSub(P2(p), One), emax - p)),
    Fl("float.h", pre \o "_EPSILON", t, UN(0, One, 1 - p)), Fl("float.h", pre \o "_TRUE_MIN", t, UN(0, One, emin - p))>>
Floats_ == <<E("float.h", "FLT_RADIX", "int", N(2)), E("float.h", "FLT_ROUNDS", "int", N(1)), E("float.h", "FLT_EVAL_METHOD", "int", N(0)), E("float.h", "DECIMAL_DIG", "int", N(17))>>
           \o Float("FLT", "float", 24, 128) \o Float("DBL", "double", 53, 1024) \o Float("LDBL", "long double", 53, 1024)

(* mathematical constants, to the nearest double *)
Real(n, a) == Fl("math.h", n, "double", Round(F64, a[1], a[2], -P, TRUE))
Exp1 == ExpF(F1)
Sqrt2 == SqrtF(FxInt(2))
Maths == <<Real("M_PI", Pi), Real("M_PI_2", HalfPi), Real("M_PI_4", FxHalf(HalfPi)), Real("M_1_PI", FxDiv(F1, Pi)), Real("M_2_PI", FxDiv(FxInt(2), Pi)),
           Real("M_2_SQRTPI", FxDiv(FxInt(2), SqrtF(Pi))), Real("M_SQRT2", Sqrt2), Real("M_SQRT1_2", FxDiv(F1, Sqrt2)), Real("M_E", Exp1),
           Real("M_LOG2E", FxDiv(F1, Ln2)), Real("M_LOG10E", FxDiv(F1, LnU(<<10>>, 0))), Real("M_LN2", Ln2), Real("M_LN10", LnU(<<10>>, 0)),
           Fl("math.h", "HUGE_VAL", "double", UInf(0)), [k |-> "flo", h |-> "math.h", n |-> "INFINITY", t |-> "", r |-> Pack(F64, UInf(0))], [k |-> "flo", h |-> "math.h", n |-> "NAN", t |-> "", r |-> Pack(F64, UNaN)]>>

(* the binary interface of Linux on x86-64 *)
Nums(h, s) == [i \in DOMAIN s |-> E(h, s[i][1], "int", N(s[i][2]))]
Errnos == Nums("errno.h", <<<<"EPERM", 1>>, <<"ENOENT", 2>>, <<"ESRCH", 3>>, <<"EINTR", 4>>, <<"EIO", 5>>, <<"ENXIO", 6>>, <<"E2BIG", 7>>, <<"ENOEXEC", 8>>, <<"EBADF", 9>>, <<"ECHILD", 10>>,
   <<"EAGAIN", 11>>, <<"EWOULDBLOCK", 11>>, <<"ENOMEM", 12>>, <<"EACCES", 13>>, <<"EFAULT", 14>>, <<"ENOTBLK", 15>>, <<"EBUSY", 16>>, <<"EEXIST", 17>>, <<"EXDEV", 18>>, <<"ENODEV", 19>>, <<"ENOTDIR", 20>>,
   <<"EISDIR", 21>>, <<"EINVAL", 22>>, <<"ENFILE", 23>>, <<"EMFILE", 24>>, <<"ENOTTY", 25>>, <<"ETXTBSY", 26>>, <<"EFBIG", 27>>, <<"ENOSPC", 28>>, <<"ESPIPE", 29>>, <<"EROFS", 30>>, <<"EMLINK", 31>>,
   <<"EPIPE", 32>>, <<"EDOM", 33>>, <<"ERANGE", 34>>, <<"EDEADLK", 35>>, <<"ENAMETOOLONG", 36>>, <<"ENOSYS", 38>>, <<"ENOTEMPTY", 39>>, <<"ELOOP", 40>>, <<"EOVERFLOW", 75>>, <<"EILSEQ", 84>>>>)
Files == Nums("fcntl.h", <<<<"O_RDONLY", 0>>, <<"O_WRONLY", 1>>, <<"O_RDWR", 2>>, <<"O_ACCMODE", 3>>, <<"O_CREAT", 64>>, <<"O_EXCL", 128>>, <<"O_NOCTTY", 256>>, <<"O_TRUNC", 512>>, <<"O_APPEND", 1024>>, <<"O_NONBLOCK", 2048>>,
   <<"O_DIRECTORY", 65536>>, <<"O_NOFOLLOW", 131072>>, <<"O_CLOEXEC", 524288>>, <<"AT_FDCWD", -100>>, <<"AT_SYMLINK_NOFOLLOW", 256>>, <<"AT_EACCESS", 512>>, <<"AT_REMOVEDIR", 512>>, <<"AT_SYMLINK_FOLLOW", 1024>>,
   <<"S_IRUSR", 256>>, <<"S_IWUSR", 128>>, <<"S_IXUSR", 64>>, <<"S_IRGRP", 32>>, <<"S_IWGRP", 16>>, <<"S_IXGRP", 8>>, <<"S_IROTH", 4>>, <<"S_IWOTH", 2>>, <<"S_IXOTH", 1>>>>)
Modes == <<<<"IFO", 4096, "FIFO">>, <<"CHR", 8192, "CHR">>, <<"DIR", 16384, "DIR">>, <<"BLK", 24576, "BLK">>, <<"REG", 32768, "REG">>, <<"LNK", 40960, "LNK">>, <<"SOCK", 49152, "SOCK">>>>
Is(h, need, e) == [k |-> "is", h |-> h, need |-> need, e |-> e]
Stats == Nums("sys/stat.h", <<<<"S_IFMT", 61440>>>> \o [i \in DOMAIN Modes |-> <<"S_IF" \o Modes[i][1], Modes[i][2]>>])
   \o [q \in 1..(7 * 7) |-> LET i == (q - 1) \div 7 + 1  j == ((q - 1) % 7) + 1 IN
        Is("sys/stat.h", <<"S_IS" \o Modes[i][3]>>, (IF i = j THEN "!!" ELSE "!") \o "S_IS" \o Modes[i][3] \o "(" \o Str(Modes[j][2]) \o " | 0" \o Str(644) \o ")")]
   \o [i \in 1..17 |-> LET o == <<<<"st_dev", 0, 8>>, <<"st_ino", 8, 8>>, <<"st_nlink", 16, 8>>, <<"st_mode", 24, 4>>, <<"st_uid", 28, 4>>, <<"st_gid", 32, 4>>, <<"st_rdev", 40, 8>>, <<"st_size", 48, 8>>,
          <<"st_blksize", 56, 8>>, <<"st_blocks", 64, 8>>, <<"st_atim", 72, 16>>, <<"st_mtim", 88, 16>>, <<"st_ctim", 104, 16>>, <<"st_atime", 72, 8>>, <<"st_mtime", 88, 8>>, <<"st_ctime", 104, 8>>, <<"", 144, 0>>>>[i] IN
        IF o[1] = "" THEN Is("sys/stat.h", <<>>, "sizeof(struct stat) == 144")
        ELSE Is("sys/stat.h", <<>>, "(char*)&((struct stat*)0)->" \o o[1] \o " - (char*)0 == " \o Str(o[2]) \o " && sizeof(((struct stat*)0)->" \o o[1] \o ") == " \o Str(o[3]))]
WaitW(st) == [sig |-> IF (st % 128) \in (1..126) THEN 1 ELSE 0, ex |-> IF st % 128 = 0 THEN 1 ELSE 0, code |-> (st \div 256) % 256, term |-> st % 128]
Waits == LET sts == <<0, 256, 65280, 32512, 9, 137, 139, 11, 15, 1, 126, 4991, 5247, 42 * 256>> IN
   [q \in 1..(4 * Len(sts)) |-> LET st == sts[(q - 1) \div 4 + 1]  w == WaitW(st)  j == (q - 1) % 4 IN
       CASE j = 0 -> Is("sys/wait.h", <<"WIFEXITED">>, "!!WIFEXITED(" \o Str(st) \o ") == " \o Str(w.ex))
         [] j = 1 -> Is("sys/wait.h", <<"WIFSIGNALED">>, "!!WIFSIGNALED(" \o Str(st) \o ") == " \o Str(w.sig))
         [] j = 2 -> Is("sys/wait.h", <<"WEXITSTATUS">>, IF w.ex = 1 THEN "WEXITSTATUS(" \o Str(st) \o ") == " \o Str(w.code) ELSE "1")
         [] j = 3 -> Is("sys/wait.h", <<"WTERMSIG">>, IF w.sig = 1 THEN "WTERMSIG(" \o Str(st) \o ") == " \o Str(w.term) ELSE "1")]
Signals == Nums("signal.h", <<<<"SIGHUP", 1>>, <<"SIGINT", 2>>, <<"SIGQUIT", 3>>, <<"SIGILL", 4>>, <<"SIGABRT", 6>>, <<"SIGFPE", 8>>, <<"SIGKILL", 9>>, <<"SIGSEGV", 11>>, <<"SIGPIPE", 13>>, <<"SIGALRM", 14>>, <<"SIGTERM", 15>>, <<"SIGCHLD", 17>>>>)
LinuxTypes == <<[k |-> "type", h |-> "sys/types.h", n |-> "off_t", size |-> 64, sg |-> TRUE], [k |-> "type", h |-> "time.h", n |-> "time_t", size |-> 64, sg |-> TRUE],
   [k |-> "type", h |-> "sys/stat.h", n |-> "uid_t", size |-> 32, sg |-> FALSE], [k |-> "type", h |-> "sys/stat.h", n |-> "gid_t", size |-> 32, sg |-> FALSE], [k |-> "type", h |-> "sys/stat.h", n |-> "ino_t", size |-> 64, sg |-> FALSE],
   Is("time.h", <<>>, "sizeof(struct timespec) == 16 && (char*)&((struct timespec*)0)->tv_nsec - (char*)0 == 8"), Is("time.h", <<>>, "CLOCK_REALTIME == 0"),
   Is("sys/ioctl.h", <<"TCGETA">>, "TCGETA == 21509"), Is("sys/random.h", <<"GRND_NONBLOCK">>, "GRND_NONBLOCK == 1 && GRND_RANDOM == 2")>>
Common(m) ==
  <<E("stdlib.h", "EXIT_SUCCESS", "int", N(0)), E("stdlib.h", "RAND_MAX", "int", Max(32)), Is("stdlib.h", <<>>, "EXIT_FAILURE != 0 && (EXIT_FAILURE & 255) != 0"),
    Is("stdio.h", <<>>, "EOF < 0"), Is("stdio.h", <<>>, "SEEK_SET == 0 && SEEK_CUR == 1 && SEEK_END == 2"), Is("stdio.h", <<>>, "_Generic(EOF, int: 1, default: 0)"),
    Is("stdio.h", <<"BUFSIZ">>, "BUFSIZ >= 256"), Is("unistd.h", <<>>, "STDIN_FILENO == 0 && STDOUT_FILENO == 1 && STDERR_FILENO == 2"),
    E("stdbool.h", "true", "int", N(1)), E("stdbool.h", "false", "int", N(0)), Is("stdbool.h", <<>>, "(bool)2 == 1 && (bool)0.5 == 1 && _Generic((bool)1, _Bool: 1, default: 0)"),
    Is("stddef.h", <<>>, "NULL == (void*)0 && !NULL && sizeof(NULL) == sizeof(void*)"), Is("stddef.h", <<>>, "_Generic(sizeof(int), size_t: 1, default: 0)"),
    Is("stddef.h", <<>>, "_Generic((char*)0 - (char*)0, ptrdiff_t: 1, default: 0)"), Is("stddef.h", <<>>, "_Generic(L'a', wchar_t: 1, default: 0) && sizeof(L\"ab\") == 3 * sizeof(wchar_t)"),
    Is("wchar.h", <<>>, "_Generic(*L\"x\", wchar_t: 1, default: 0)"), Is("stddef.h", <<>>, "_Generic(_Alignof(int), size_t: 1, default: 0)"),
    Is("limits.h", <<>>, "CHAR_MIN == ((char)-1 < 0 ? SCHAR_MIN : 0) && CHAR_MAX == ((char)-1 < 0 ? SCHAR_MAX : UCHAR_MAX)"),
    Is("limits.h", <<"MB_LEN_MAX">>, "MB_LEN_MAX >= 1"), Is("time.h", <<"CLOCKS_PER_SEC">>, "CLOCKS_PER_SEC == 1000000"),
    Is("setjmp.h", <<>>, "sizeof(jmp_buf) >= " \o Str(m.ptr \div 4)),
    Is("stdarg.h", <<>>, "sizeof(va_list) > 0"), Is("stdint.h", <<"INT8_C">>, "INT8_C(-5) == -5 && UINT64_C(18446744073709551615) == UINT64_MAX && INT64_C(9223372036854775807) == INT64_MAX"),
    Is("math.h", <<>>, "FP_NAN != FP_INFINITE && FP_NAN != FP_ZERO && FP_NAN != FP_NORMAL && FP_NAN != FP_SUBNORMAL && FP_INFINITE != FP_ZERO && FP_INFINITE != FP_NORMAL && FP_INFINITE != FP_SUBNORMAL && FP_ZERO != FP_NORMAL && FP_ZERO != FP_SUBNORMAL && FP_NORMAL != FP_SUBNORMAL")>>
  \o Least("least", 8, m) \o Least("least", 16, m) \o Least("least", 32, m) \o Least("least", 64, m) \o Least("fast", 8, m) \o Least("fast", 16, m) \o Least("fast", 32, m) \o Least("fast", 64, m)
(* the digits printed *)
RECURSIVE InBase(_, _, _)
InBase(n, b, acc) == IF n = <<>> THEN acc ELSE LET d == NDivS(n, b) IN InBase(d[1], b, <<d[2]>> \o acc)
Digits(n, b) == IF n = <<>> THEN <<0>> ELSE InBase(n, b, <<>>)
FmtTypes(m) == <<<<"8", "int8_t", 8>>, <<"16", "int16_t", 16>>, <<"32", "int32_t", 32>>, <<"64", "int64_t", 64>>, <<"PTR", "intptr_t", m.ptr>>, <<"MAX", "intmax_t", 64>>,
                 <<"LEAST8", "int_least8_t", 8>>, <<"LEAST16", "int_least16_t", 16>>, <<"LEAST32", "int_least32_t", 32>>, <<"LEAST64", "int_least64_t", 64>>>>
FmtVal(bits, w) == LET lo == NDivMod(bits, P2(w))[2] IN [u |-> lo, neg |-> NBitLen(lo) = w, mag |-> IF NBitLen(lo) = w THEN NSub(P2(w), lo) ELSE lo]
Fmts(m, vals) == [q \in 1..(Len(FmtTypes(m)) * 6 * Len(vals)) |->
   LET t == FmtTypes(m)[(q - 1) \div (6 * Len(vals)) + 1]  c == <<"d", "i", "u", "x", "X", "o">>[(((q - 1) \div Len(vals)) % 6) + 1]  v == FmtVal(vals[((q - 1) % Len(vals)) + 1], t[3])
   IN [k |-> "fmt", h |-> "inttypes.h", n |-> "PRI" \o c \o t[1], t |-> (IF c \in {"d", "i"} THEN "" ELSE "u") \o t[2], bits |-> v.u, c |-> c,
       neg |-> c \in {"d", "i"} /\ v.neg, digits |-> Digits(IF c \in {"d", "i"} THEN v.mag ELSE v.u, IF c \in {"x", "X"} THEN 16 ELSE IF c = "o" THEN 8 ELSE 10)]]
(* C leaves these to larger implementations, or xcc does not offer them; everything else in the table must be there *)
Absent == {
  "BUFSIZ", "CLOCKS_PER_SEC", "DBL_DECIMAL_DIG", "DBL_TRUE_MIN", "DECIMAL_DIG", "EDEADLK", "EILSEQ", "ELOOP", "ENAMETOOLONG", "ENOSYS", "ENOTEMPTY", 
  "EOVERFLOW", "EWOULDBLOCK", "FLT_DECIMAL_DIG", "FLT_EVAL_METHOD", "FLT_TRUE_MIN", "INT8_C", "INT_FAST16_MAX", "INT_FAST32_MAX", "INT_FAST64_MAX", 
  "INT_FAST8_MAX", "INT_LEAST16_MAX", "INT_LEAST32_MAX", "INT_LEAST64_MAX", "INT_LEAST8_MAX", "LDBL_DECIMAL_DIG", "LDBL_DIG", "LDBL_EPSILON", 
  "LDBL_MANT_DIG", "LDBL_MAX", "LDBL_MAX_10_EXP", "LDBL_MAX_EXP", "LDBL_MIN", "LDBL_MIN_10_EXP", "LDBL_MIN_EXP", "LDBL_TRUE_MIN", "MB_LEN_MAX", 
  "O_CLOEXEC", "O_DIRECTORY", "O_NOCTTY", "O_NOFOLLOW", "O_NONBLOCK", "PRIX16", "PRIX32", "PRIX64", "PRIX8", "PRIXLEAST16", "PRIXLEAST32", 
  "PRIXLEAST64", "PRIXLEAST8", "PRIXMAX", "PRIXPTR", "PRId16", "PRId8", "PRIdLEAST16", "PRIdLEAST32", "PRIdLEAST64", "PRIdLEAST8", "PRIi16", 
  "PRIi32", "PRIi64", "PRIi8", "PRIiLEAST16", "PRIiLEAST32", "PRIiLEAST64", "PRIiLEAST8", "PRIiMAX", "PRIiPTR", "PRIo16", "PRIo32", "PRIo64", 
  "PRIo8", "PRIoLEAST16", "PRIoLEAST32", "PRIoLEAST64", "PRIoLEAST8", "PRIoPTR", "PRIu16", "PRIu8", "PRIuLEAST16", "PRIuLEAST32", "PRIuLEAST64", 
  "PRIuLEAST8", "PRIuPTR", "PRIx16", "PRIx8", "PRIxLEAST16", "PRIxLEAST32", "PRIxLEAST64", "PRIxLEAST8", "PRIxMAX", "SIGABRT", "SIGALRM", "SIGFPE", 
  "SIGHUP", "SIGILL", "SIGINT", "SIGPIPE", "SIGQUIT", "SIGSEGV", "SIGTERM"}
Names(e) == IF e.k = "is" THEN {e.need[i] : i \in DOMAIN e.need} ELSE {e.n}
Must(es) == [i \in DOMAIN es |-> Names(es[i]) \cap Absent = {}]
VARIABLES pid, part, phase
vars == <<pid, part, phase>>
(* the table is written in parts *)
Part(c, m, q) == CASE q = 1 -> Limits(m) \o StdInt(m) [] q = 2 -> Floats_ [] q = 3 -> Maths [] q = 4 -> Common(m) [] q = 5 -> Fmts(m, c.vals)
                   [] q = 6 -> IF c.tg = "x64" THEN Errnos \o Files \o Stats \o Waits \o Signals \o LinuxTypes ELSE <<>>
Init == pid \in DOMAIN Cases /\ part = 1 /\ phase = "table"
Emit == /\ phase = "table" /\ part <= 6
        /\ LET es == Part(Cases[pid], Model(Cases[pid].tg), part) IN PrintT("@@" \o ToJson([pid |-> pid, part |-> part, es |-> es, must |-> Must(es)]))
        /\ part' = part + 1 /\ UNCHANGED <<pid, phase>>
Done == phase = "table" /\ part > 6 /\ phase' = "end" /\ UNCHANGED <<pid, part>>
Next == Emit \/ Done
Spec == Init /\ [][Next]_vars
(* the limits of a data model bracket each other *)
Sane(m) == /\ m.char <= m.short /\ m.short <= m.int /\ m.int <= m.long /\ m.long <= m.llong
           /\ \A w \in {m.char, m.short, m.int, m.long, m.llong} : NCmp(Min(w)[2], NAdd(Max(w)[2], One)) = 0 /\ NCmp(UMax(w)[2], NAdd(NMulS(Max(w)[2], 2, 0), One)) = 0
TypeOK == phase \in {"table", "end"} /\ Sane(Model(Cases[pid].tg))
=============================================================================
