------------------------------- MODULE CTypes -------------------------------
(***************************************************************************)
(* C types, their sizes, layout and conversions, for the two data models   *)
(* of the compiler: "x64" (LP64) and "wasm" (ILP32 with 64-bit long long). *)
(* A type is a record with a kind k:                                       *)
(*   integers b c sc uc s us i u l ul ll ull     floats f d ld     void v   *)
(*   [k |-> "p", to]  [k |-> "a", of, n]  [k |-> "st", id]                  *)
(*   [k |-> "fn", r, ps, va]                                                *)
(* A struct table is a sequence of [u |-> union?, m |-> members] where a    *)
(* member is [n |-> name, t |-> type, w |-> bit-field width or -1].         *)
(* A value is [t |-> type, w |-> word] or, for aggregates, w = bytes.       *)
(***************************************************************************)
EXTENDS Words, Floats, TLC

T(k) == [k |-> k]
TInt == T("i")
TUInt == T("u")
TDouble == T("d")
TULong == T("ul")
Ptr(t) == [k |-> "p", to |-> t]
Arr(t, n) == [k |-> "a", of |-> t, n |-> n]

SignedK == {"c", "sc", "s", "i", "l", "ll"}
UnsignedK == {"b", "uc", "us", "u", "ul", "ull"}
IntK == SignedK \cup UnsignedK
FloatK == {"f", "d", "ld"}
ArithK == IntK \cup FloatK
IsInt(t) == t.k \in IntK
IsFloat(t) == t.k \in FloatK
IsArith(t) == t.k \in ArithK
IsPtr(t) == t.k = "p"
IsAgg(t) == t.k = "a" \/ t.k = "st"
IsSigned(t) == t.k \in SignedK

LongSize(g) == IF g = "wasm" THEN 4 ELSE 8
ScalarSize(g, k) ==
  CASE k \in {"c", "sc", "uc"} -> 1
    [] k \in {"s", "us"} -> 2
    [] k \in {"b", "i", "u", "f"} -> 4
    [] k \in {"ll", "ull", "d", "ld"} -> 8
    [] k \in {"l", "ul", "p"} -> LongSize(g)
    [] k = "v" -> 1
    [] k = "fn" -> 1

AlignUp(n, a) == ((n + a - 1) \div a) * a
MaxI(a, b) == IF a > b THEN a ELSE b

(* L: sequence of struct layouts [size, align, off, m, u] *)
RECURSIVE SizeOf(_, _, _)
SizeOf(g, L, t) == IF t.k = "a" THEN t.n * SizeOf(g, L, t.of)
                   ELSE IF t.k = "st" THEN L[t.id].size
                   ELSE ScalarSize(g, t.k)
RECURSIVE AlignOf(_, _, _)
AlignOf(g, L, t) == IF t.k = "a" THEN AlignOf(g, L, t.of)
                    ELSE IF t.k = "st" THEN L[t.id].align
                    ELSE ScalarSize(g, t.k)

(* The platform layout rule.  Bit-fields are abstract: each one gets a      *)
(* storage cell of its declared type (their packing is implementation       *)
(* defined and never observed through other members or sizeof).             *)
RECURSIVE LayMembers(_, _, _, _, _, _, _)
LayMembers(g, L, sd, i, size, align, off) ==
  IF i > Len(sd.m)
  THEN [size |-> AlignUp(size, align), align |-> align, off |-> off, m |-> sd.m, u |-> sd.u]
  ELSE LET t == sd.m[i].t
           a == AlignOf(g, L, t)
           o == IF sd.u THEN 0 ELSE AlignUp(size, a)
           z == o + SizeOf(g, L, t)
       IN LayMembers(g, L, sd, i + 1, IF sd.u THEN MaxI(size, z) ELSE z, MaxI(align, a), Append(off, o))
RECURSIVE Layouts(_, _, _)
Layouts(g, SD, L) == IF Len(L) = Len(SD) THEN L
                     ELSE Layouts(g, SD, Append(L, LayMembers(g, L, SD[Len(L) + 1], 1, 0, 1, <<>>)))

(* index of a member by name; anonymous members (name "") are searched too *)
RECURSIVE FindMember(_, _, _)
FindMember(L, id, name) ==     \* path of member indices, <<>> if absent
  LET ms == L[id].m
      direct == {i \in DOMAIN ms : ms[i].n = name}
  IN IF direct # {} THEN <<CHOOSE i \in direct : TRUE>>
     ELSE LET anon == {i \in DOMAIN ms : ms[i].n = "" /\ ms[i].t.k = "st" /\ FindMember(L, ms[i].t.id, name) # <<>>}
          IN IF anon = {} THEN <<>>
             ELSE LET i == CHOOSE i \in anon : TRUE IN <<i>> \o FindMember(L, ms[i].t.id, name)

-----------------------------------------------------------------------------
(* integer promotions and the usual arithmetic conversions *)
Rank(k) == CASE k = "b" -> 0 [] k \in {"c", "sc", "uc"} -> 1 [] k \in {"s", "us"} -> 2
             [] k \in {"i", "u"} -> 3 [] k \in {"l", "ul"} -> 4 [] k \in {"ll", "ull"} -> 5
Promote(t) == IF IsInt(t) /\ Rank(t.k) < 3 THEN TInt ELSE t
UnsignedOf(k) == CASE k = "i" -> "u" [] k = "l" -> "ul" [] k = "ll" -> "ull" [] OTHER -> k
UAC(g, t1, t2) ==
  IF t1.k = "ld" \/ t2.k = "ld" THEN T("ld")
  ELSE IF t1.k = "d" \/ t2.k = "d" THEN TDouble
  ELSE IF t1.k = "f" \/ t2.k = "f" THEN T("f")
  ELSE LET a == Promote(t1).k
           b == Promote(t2).k
       IN IF a = b THEN T(a)
          ELSE IF (a \in SignedK) = (b \in SignedK) THEN T(IF Rank(a) > Rank(b) THEN a ELSE b)
          ELSE LET u == IF a \in SignedK THEN b ELSE a
                   s == IF a \in SignedK THEN a ELSE b
               IN IF Rank(u) >= Rank(s) THEN T(u)
                  ELSE IF ScalarSize(g, s) > ScalarSize(g, u) THEN T(s)
                  ELSE T(UnsignedOf(s))

-----------------------------------------------------------------------------
(* conversions of scalar words *)
ConvInt(g, t, w) == IF t.k = "b" THEN IF IsZero(w) THEN W0 ELSE W1
                    ELSE IF IsSigned(t) THEN SExt(ScalarSize(g, t.k), w) ELSE ZExt(ScalarSize(g, t.k), w)

(* words <-> BigNat (both directions exact) *)
NFromWord(w) ==
  LET l(x) == NFromInt(x)
      sh(a, x) == NAdd(NShl(a, 16), l(x))
  IN sh(sh(sh(l(w[4]), w[3]), w[2]), w[1])
NLow16(a, i) ==                        \* i-th 16-bit digit (0-based) of a
  LET d == NShr(a, 16 * i)[1]
  IN IF d = <<>> THEN 0 ELSE (d[1] + Q * (NLimb(d, 2) % 2)) % 65536
WFromN(a) == <<NLow16(a, 0), NLow16(a, 1), NLow16(a, 2), NLow16(a, 3)>>

Fmt(t) == IF t.k = "f" THEN F32 ELSE F64
(* packed words *)
FPack(t, u) ==
  LET e == UEnc(Fmt(t), u)
      f == WFromN(e[3])
  IN IF t.k = "f" THEN <<f[1], e[1] * 32768 + e[2] * 128 + f[2], 0, 0>>
     ELSE <<f[1], f[2], f[3], e[1] * 32768 + e[2] * 16 + f[4]>>
FUnpack(t, w) ==
  IF t.k = "f" THEN UDec(F32, <<w[2] \div 32768, (w[2] % 32768) \div 128, NFromWord(<<w[1], w[2] % 128, 0, 0>>)>>)
  ELSE UDec(F64, <<w[4] \div 32768, (w[4] % 32768) \div 16, NFromWord(<<w[1], w[2], w[3], w[4] % 16>>)>>)
FNegW(t, w) == IF t.k = "f" THEN <<w[1], (w[2] + 32768) % 65536, 0, 0>>
               ELSE <<w[1], w[2], w[3], (w[4] + 32768) % 65536>>
FIsZeroW(t, w) == IF t.k = "f" THEN w[1] = 0 /\ w[2] % 32768 = 0
                  ELSE w[1] = 0 /\ w[2] = 0 /\ w[3] = 0 /\ w[4] % 32768 = 0
FFromInt(t, signed, w) ==
  LET neg == signed /\ IsNeg(w)
  IN FPack(t, Round(Fmt(t), IF neg THEN 1 ELSE 0, NFromWord(IF neg THEN Neg(w) ELSE w), 0, FALSE))
(* [ok |-> in range, w |-> word] *)
FToInt(g, it, ft, w) ==
  LET u == FUnpack(ft, w)
      n == 8 * ScalarSize(g, it.k)
  IN IF u.c # "n" THEN [ok |-> FALSE, w |-> W0]
     ELSE LET m == UTrunc(u)
              bl == NBitLen(m)
              ok == IF m = <<>> THEN TRUE
                    ELSE IF IsSigned(it)
                    THEN bl < n \/ (bl = n /\ u.s = 1 /\ m = NShl(<<1>>, n - 1))
                    ELSE u.s = 0 /\ bl <= n
          IN IF ~ok THEN [ok |-> FALSE, w |-> W0]
             ELSE [ok |-> TRUE, w |-> IF u.s = 1 THEN Neg(WFromN(m)) ELSE WFromN(m)]
=============================================================================
