------------------------------- MODULE CString -------------------------------
(* The string, memory, character and number-parsing functions of the C
   library as transitions of a byte memory.

   The state is one object of N bytes (everything outside it is forbidden),
   and the place where strtok_r continues.  A call is a transition that
   gives the result and the memory after it.  A call whose contract would
   have to touch a byte outside the object, or whose operands overlap where
   C forbids it, is not a behaviour: the machine skips it.
   Pointers are offsets 0..N into the object, NULL is -1.                   *)
EXTENDS BigNat, TLC, Json, IOUtils, FiniteSets
Cases == JsonDeserialize(IOEnv.CASES)
NULL == -1

VARIABLES pid, i, mem, save, outs
vars == <<pid, i, mem, save, outs>>

Min(a, b) == IF a < b THEN a ELSE b
At(m, o) == m[o + 1]
UC(c) == ((c % 256) + 256) % 256
(* distance from o to the first NUL, at most lim bytes looked at; lim when none among them; -1 when the object ends first *)
RECURSIVE Nul(_, _, _, _)
Nul(m, o, k, lim) == IF k >= lim THEN k ELSE IF o + k >= Len(m) THEN -1 ELSE IF At(m, o + k) = 0 THEN k ELSE Nul(m, o, k + 1, lim)
Inf == 1000000
StrLen(m, o) == LET k == Nul(m, o, 0, Inf) IN IF k >= Inf THEN -1 ELSE k
Bytes(m, o, n) == SubSeq(m, o + 1, o + n)
Str(m, o) == Bytes(m, o, StrLen(m, o))
In(m, o, n) == o >= 0 /\ o + n <= Len(m)
Clear(a, n, b, k) == n = 0 \/ k = 0 \/ a + n <= b \/ b + k <= a            \* [a,a+n) and [b,b+k) disjoint
Store(m, o, s) == [j \in DOMAIN m |-> IF j > o /\ j <= o + Len(s) THEN s[j - o] ELSE m[j]]
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
LowerS(s) == [j \in DOMAIN s |-> Lower(s[j])]

RECURSIVE First(_, _, _)                                                   \* first index >= j of s with s[j] in S, 0 when none
First(s, S, j) == IF j > Len(s) THEN 0 ELSE IF s[j] \in S THEN j ELSE First(s, S, j + 1)
RECURSIVE Last(_, _, _)
Last(s, S, j) == IF j = 0 THEN 0 ELSE IF s[j] \in S THEN j ELSE Last(s, S, j - 1)
Set(s) == {s[j] : j \in DOMAIN s}
RECURSIVE CmpR(_, _, _)
CmpR(s, t, j) == IF j > Len(s) /\ j > Len(t) THEN 0 ELSE IF j > Len(s) THEN -1 ELSE IF j > Len(t) THEN 1
                 ELSE IF s[j] < t[j] THEN -1 ELSE IF s[j] > t[j] THEN 1 ELSE CmpR(s, t, j + 1)
Cmp(s, t) == CmpR(s, t, 1)
RECURSIVE FindR(_, _, _)
FindR(s, t, o) == IF o + Len(t) > Len(s) THEN -1 ELSE IF SubSeq(s, o + 1, o + Len(t)) = t THEN o ELSE FindR(s, t, o + 1)

(* what a call returns: a pointer, a size, an ordering (sign only), a truth value, a byte string, a number with its end *)
Undef == [ok |-> FALSE]
R(k, v, m) == [ok |-> TRUE, k |-> k, v |-> v, m |-> m, sv |-> save]
Ptr(o, m) == R("p", o, m)

(* strings whose comparison may stop early: the first difference or NUL decides, later bytes need not exist *)
RECURSIVE CmpN(_, _, _, _, _)
CmpN(m, a, b, n, low) ==
  IF n = 0 THEN 0
  ELSE IF a >= Len(m) \/ b >= Len(m) THEN 9                                  \* outside the object
  ELSE LET x == IF low THEN Lower(At(m, a)) ELSE At(m, a) y == IF low THEN Lower(At(m, b)) ELSE At(m, b)
       IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE IF x = 0 THEN 0 ELSE CmpN(m, a + 1, b + 1, n - 1, low)
CmpCall(m, a, b, n, low) == LET r == CmpN(m, a, b, n, low) IN IF r = 9 THEN Undef ELSE R("s", r, m)

(* ------------------------------------------------------------ numbers *)
Space == {32} \cup 9..13
DigitVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..122 THEN c - 87 ELSE IF c \in 65..90 THEN c - 55 ELSE 99
RECURSIVE SkipSp(_, _)
SkipSp(s, j) == IF j <= Len(s) /\ s[j] \in Space THEN SkipSp(s, j + 1) ELSE j
RECURSIVE Digits(_, _, _, _)
Digits(s, j, base, acc) == IF j <= Len(s) /\ DigitVal(s[j]) < base THEN Digits(s, j + 1, base, NMulS(acc, base, DigitVal(s[j]))) ELSE [v |-> acc, j |-> j]
DV(s, j) == IF j <= Len(s) THEN DigitVal(s[j]) ELSE 99
(* -> subject sequence: sign, magnitude, end (number of characters of s used; 0: no conversion) *)
Subject(s, base0) ==
  LET j0 == SkipSp(s, 1)
      neg == j0 <= Len(s) /\ s[j0] = 45
      j1 == IF j0 <= Len(s) /\ s[j0] \in {43, 45} THEN j0 + 1 ELSE j0
      hex == DV(s, j1) = 0 /\ DV(s, j1 + 1) = 33 /\ DV(s, j1 + 2) < 16                   \* 0x and a hexadecimal digit
      base == IF base0 # 0 THEN base0 ELSE IF hex THEN 16 ELSE IF DV(s, j1) = 0 THEN 8 ELSE 10
      j2 == IF base = 16 /\ hex THEN j1 + 2 ELSE j1
      d == Digits(s, j2, base, <<>>)
  IN IF DV(s, j2) >= base THEN [neg |-> FALSE, v |-> <<>>, e |-> 0] ELSE [neg |-> neg, v |-> d.v, e |-> d.j - 1]
Pow2(k) == NShl(<<1>>, k)
(* value as [neg, mag] *)
Num(neg, mag) == [neg |-> neg /\ mag # <<>>, mag |-> mag]
Signed(x, bits) == LET lim == IF x.neg THEN Pow2(bits - 1) ELSE NSub(Pow2(bits - 1), <<1>>)
                   IN Num(x.neg, IF NCmp(x.v, lim) > 0 THEN lim ELSE x.v)
Unsigned(x, bits) == LET lim == NSub(Pow2(bits), <<1>>)
                     IN Num(FALSE, IF NCmp(x.v, lim) > 0 THEN lim ELSE IF x.neg /\ x.v # <<>> THEN NSub(Pow2(bits), x.v) ELSE x.v)
FitsS(x, bits) == Signed(x, bits).mag = x.v
NumCall(m, a, base, bits, sg) ==
  IF StrLen(m, a) < 0 \/ ~(base = 0 \/ base \in 2..36) THEN Undef
  ELSE LET x == Subject(Str(m, a), base)
       IN R("n", [n |-> IF sg THEN Signed(x, bits) ELSE Unsigned(x, bits), e |-> a + x.e], m)
AtoCall(m, a, bits) ==
  IF StrLen(m, a) < 0 THEN Undef
  ELSE LET x == Subject(Str(m, a), 10) IN IF ~FitsS(x, bits) THEN Undef ELSE R("n", [n |-> Signed(x, bits), e |-> 0], m)

(* ------------------------------------------------------------ characters (C locale) *)
Class == [isdigit |-> 48..57, isupper |-> 65..90, islower |-> 97..122, isalpha |-> 65..90 \cup 97..122, isalnum |-> 48..57 \cup 65..90 \cup 97..122,
          isxdigit |-> 48..57 \cup 65..70 \cup 97..102, isspace |-> Space, isprint |-> 32..126, isgraph |-> 33..126, iscntrl |-> 0..31 \cup {127},
          ispunct |-> (33..126) \ (48..57 \cup 65..90 \cup 97..122), isascii |-> 0..127]

(* ------------------------------------------------------------ strtok_r *)
TokFrom(m, o, b) ==
  IF StrLen(m, o) < 0 \/ StrLen(m, b) < 0 THEN Undef
  ELSE LET D == Set(Str(m, b)) s == Str(m, o) L == Len(s)
           p == First(s, (0..255) \ D, 1)
           q == IF p = 0 THEN 0 ELSE First(s, D, p)
       IN IF p = 0 THEN [ok |-> TRUE, k |-> "p", v |-> NULL, m |-> m, sv |-> o + L]
          ELSE IF q = 0 THEN [ok |-> TRUE, k |-> "p", v |-> o + p - 1, m |-> m, sv |-> o + L]
          ELSE [ok |-> TRUE, k |-> "p", v |-> o + p - 1, m |-> Store(m, o + q - 1, <<0>>), sv |-> o + q]

Call(c, m, g) ==
  LET a == c.a b == c.b n == c.n ch == UC(c.c) la == StrLen(m, a) lb == StrLen(m, b)
      bn == Nul(m, b, 0, n) an == Nul(m, a, 0, n)
      f == c.f
      okA == la >= 0
      okB == lb >= 0
  IN
  CASE f = "memcpy" -> IF In(m, a, n) /\ In(m, b, n) /\ Clear(a, n, b, n) THEN Ptr(a, Store(m, a, Bytes(m, b, n))) ELSE Undef
    [] f = "memmove" -> IF In(m, a, n) /\ In(m, b, n) THEN Ptr(a, Store(m, a, Bytes(m, b, n))) ELSE Undef
    [] f = "memset" -> IF In(m, a, n) THEN Ptr(a, Store(m, a, [j \in 1..n |-> ch])) ELSE Undef
    [] f = "memchr" -> LET k == Min(n, Len(m) - a) j == First(Bytes(m, a, k), {ch}, 1)
                       IN IF j # 0 THEN Ptr(a + j - 1, m) ELSE IF In(m, a, n) THEN Ptr(NULL, m) ELSE Undef
    [] f = "memcmp" -> IF In(m, a, n) /\ In(m, b, n) THEN R("s", Cmp(Bytes(m, a, n), Bytes(m, b, n)), m) ELSE Undef
    [] f = "memccpy" -> LET k == Min(n, Len(m) - b) j == First(Bytes(m, b, k), {ch}, 1) w == IF j = 0 THEN n ELSE j
                        IN IF In(m, b, w) /\ In(m, a, w) /\ Clear(a, w, b, w) THEN Ptr(IF j = 0 THEN NULL ELSE a + j, Store(m, a, Bytes(m, b, w))) ELSE Undef
    [] f = "strlen" -> IF okA THEN R("u", la, m) ELSE Undef
    [] f = "strnlen" -> IF an >= 0 THEN R("u", an, m) ELSE Undef
    [] f = "strchr" -> LET k == IF okA THEN la + 1 ELSE Len(m) - a j == First(Bytes(m, a, k), {ch}, 1)
                       IN IF j # 0 THEN Ptr(a + j - 1, m) ELSE IF okA THEN Ptr(NULL, m) ELSE Undef
    [] f = "strrchr" -> IF ~okA THEN Undef ELSE LET j == Last(Bytes(m, a, la + 1), {ch}, la + 1) IN Ptr(IF j = 0 THEN NULL ELSE a + j - 1, m)
    [] f = "strstr" -> IF ~okA \/ ~okB THEN Undef ELSE LET o == FindR(Str(m, a), Str(m, b), 0) IN Ptr(IF o < 0 THEN NULL ELSE a + o, m)
    [] f \in {"strcmp", "strcoll"} -> IF okA /\ okB THEN R("s", Cmp(Str(m, a), Str(m, b)), m) ELSE Undef
    [] f = "strncmp" -> CmpCall(m, a, b, n, FALSE)
    [] f = "strcasecmp" -> IF okA /\ okB THEN R("s", Cmp(LowerS(Str(m, a)), LowerS(Str(m, b))), m) ELSE Undef
    [] f = "strncasecmp" -> CmpCall(m, a, b, n, TRUE)
    [] f \in {"strcpy", "stpcpy"} -> IF okB /\ In(m, a, lb + 1) /\ Clear(a, lb + 1, b, lb + 1)
                                     THEN Ptr(IF f = "strcpy" THEN a ELSE a + lb, Store(m, a, Bytes(m, b, lb + 1))) ELSE Undef
    [] f \in {"strncpy", "stpncpy"} -> IF bn >= 0 /\ In(m, a, n) /\ Clear(a, n, b, Min(n, bn + 1))
                                       THEN Ptr(IF f = "strncpy" THEN a ELSE a + bn, Store(m, a, Bytes(m, b, bn) \o [j \in 1..(n - bn) |-> 0])) ELSE Undef
    [] f = "strcat" -> IF okA /\ okB /\ In(m, a + la, lb + 1) /\ Clear(a + la, lb + 1, b, lb + 1) THEN Ptr(a, Store(m, a + la, Bytes(m, b, lb + 1))) ELSE Undef
    [] f = "strncat" -> IF okA /\ bn >= 0 /\ In(m, a + la, bn + 1) /\ Clear(a + la, bn + 1, b, Min(n, bn + 1))
                        THEN Ptr(a, Store(m, a + la, Append(Bytes(m, b, bn), 0))) ELSE Undef
    [] f = "strdup" -> IF okA THEN R("b", Str(m, a), m) ELSE Undef
    [] f = "strndup" -> IF an >= 0 THEN R("b", Bytes(m, a, an), m) ELSE Undef
    [] f \in {"strspn", "strcspn"} -> IF okA /\ okB THEN LET j == First(Str(m, a), IF f = "strspn" THEN (0..255) \ Set(Str(m, b)) ELSE Set(Str(m, b)), 1)
                                                         IN R("u", IF j = 0 THEN la ELSE j - 1, m) ELSE Undef
    [] f = "strpbrk" -> IF okA /\ okB THEN LET j == First(Str(m, a), Set(Str(m, b)), 1) IN Ptr(IF j = 0 THEN NULL ELSE a + j - 1, m) ELSE Undef
    [] f = "strtok" /\ a >= 0 -> TokFrom(m, a, b)
    (* continue: after the last token the place is the terminating NUL, which must still be there *)
    [] f = "strtok" /\ a < 0 -> IF save < 0 THEN Undef ELSE TokFrom(m, save, b)
    [] f = "strtol" -> NumCall(m, a, n, g, TRUE)
    [] f = "strtoll" -> NumCall(m, a, n, 64, TRUE)
    [] f = "strtoul" -> NumCall(m, a, n, g, FALSE)
    [] f = "strtoull" -> NumCall(m, a, n, 64, FALSE)
    [] f = "atoi" -> AtoCall(m, a, 32)
    [] f = "atol" -> AtoCall(m, a, g)
    [] f = "atoll" -> AtoCall(m, a, 64)
    [] f = "tolower" -> IF c.c \in -1..255 THEN R("u", Lower(c.c), m) ELSE Undef
    [] f = "toupper" -> IF c.c \in -1..255 THEN R("u", Upper(c.c), m) ELSE Undef
    [] f \in DOMAIN Class -> IF c.c \in -1..255 THEN R("t", c.c \in Class[f], m) ELSE Undef

Init == pid \in DOMAIN Cases /\ i = 1 /\ mem = Cases[pid].mem /\ save = -1 /\ outs = <<>>
Step == /\ i >= 1 /\ i <= Len(Cases[pid].calls)
        /\ LET r == Call(Cases[pid].calls[i], mem, Cases[pid].lbits)
           IN IF r.ok THEN /\ mem' = r.m /\ save' = r.sv /\ outs' = Append(outs, [ok |-> TRUE, k |-> r.k, v |-> r.v, m |-> r.m])
              ELSE /\ outs' = Append(outs, [ok |-> FALSE]) /\ UNCHANGED <<mem, save>>
        /\ i' = i + 1 /\ pid' = pid
Finish == /\ i > Len(Cases[pid].calls)
          /\ PrintT("@@" \o ToJson([pid |-> pid, outs |-> outs]))
          /\ i' = 0 /\ UNCHANGED <<pid, mem, save, outs>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
(* no call changes the size of the object or leaves something that is not a byte in it; a pointer result lies in the object *)
TypeOK == /\ Len(mem) = Len(Cases[pid].mem) /\ \A j \in DOMAIN mem : mem[j] \in 0..255
          /\ \A j \in DOMAIN outs : outs[j].ok /\ outs[j].k = "p" => outs[j].v \in -1..Len(mem)
=============================================================================
