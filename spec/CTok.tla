-------------------------------- MODULE CTok --------------------------------
(***************************************************************************)
(* Lexical structure of C: translation phases 2 (line splicing), 3         *)
(* (tokens by longest match, comments), 5 (escape sequences), 6 (adjacent  *)
(* string literals) and the value and type of constants.                   *)
(* Source text is a sequence of byte codes.                               *)
(***************************************************************************)
EXTENDS CTypes, FiniteSets

BSL == 92
NL == 10
RECURSIVE SpliceR(_, _, _)
SpliceR(s, i, acc) == IF i > Len(s) THEN acc
                      ELSE IF s[i] = BSL /\ i < Len(s) /\ s[i + 1] = NL THEN SpliceR(s, i + 2, acc)
                      ELSE SpliceR(s, i + 1, Append(acc, s[i]))
Splice(s) == SpliceR(s, 1, <<>>)

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
IsDig(c) == c >= 48 /\ c <= 57
IsOct(c) == c >= 48 /\ c <= 55
IsHex(c) == IsDig(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
HexVal(c) == IF IsDig(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
IsAlpha(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = 95
IsWhite(c) == c \in {9, 10, 11, 12, 13, 32}
Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Signs == {43, 45}

(* white space and comments *)
RECURSIVE SkipWs(_, _)
RECURSIVE SkipLine(_, _)
RECURSIVE SkipBlock(_, _)
SkipLine(s, i) == IF i > Len(s) \/ s[i] = NL THEN SkipWs(s, i) ELSE SkipLine(s, i + 1)
SkipBlock(s, i) == IF i > Len(s) THEN i ELSE IF s[i] = 42 /\ At(s, i + 1) = 47 THEN SkipWs(s, i + 2) ELSE SkipBlock(s, i + 1)
SkipWs(s, i) == IF i > Len(s) THEN i
                ELSE IF IsWhite(s[i]) THEN SkipWs(s, i + 1)
                ELSE IF s[i] = 47 /\ At(s, i + 1) = 47 THEN SkipLine(s, i + 2)
                ELSE IF s[i] = 47 /\ At(s, i + 1) = 42 THEN SkipBlock(s, i + 2)
                ELSE i

RECURSIVE IdEnd(_, _)
IdEnd(s, i) == IF IsAlpha(At(s, i)) \/ IsDig(At(s, i)) THEN IdEnd(s, i + 1) ELSE i
(* preprocessing numbers *)
RECURSIVE NumEnd(_, _)
NumEnd(s, i) == LET c == At(s, i)
                IN IF Low(c) \in {101, 112} /\ At(s, i + 1) \in Signs THEN NumEnd(s, i + 2)
                   ELSE IF IsAlpha(c) \/ IsDig(c) \/ c = 46 THEN NumEnd(s, i + 1) ELSE i

(* + - * / % & | ^ ~ ! < > = ? : ; , . ( ) [ ] { } and their compounds *)
Ops3 == {<<60, 60, 61>>, <<62, 62, 61>>, <<46, 46, 46>>}
Ops2 == {<<43, 43>>, <<45, 45>>, <<38, 38>>, <<124, 124>>, <<60, 60>>, <<62, 62>>, <<60, 61>>, <<62, 61>>, <<61, 61>>, <<33, 61>>,
         <<43, 61>>, <<45, 61>>, <<42, 61>>, <<47, 61>>, <<37, 61>>, <<38, 61>>, <<124, 61>>, <<94, 61>>, <<45, 62>>}
OpEnd(s, i) == IF <<At(s, i), At(s, i + 1), At(s, i + 2)>> \in Ops3 THEN i + 3
               ELSE IF <<At(s, i), At(s, i + 1)>> \in Ops2 THEN i + 2 ELSE i + 1

-----------------------------------------------------------------------------
(* character and string contents *)
RECURSIVE HexRun(_, _, _)
HexRun(s, i, v) == IF IsHex(At(s, i)) THEN HexRun(s, i + 1, v * 16 + HexVal(s[i])) ELSE <<v, i>>
RECURSIVE OctRun(_, _, _, _)
OctRun(s, i, n, v) == IF n > 0 /\ IsOct(At(s, i)) THEN OctRun(s, i + 1, n - 1, v * 8 + s[i] - 48) ELSE <<v, i>>
Simple(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11
               [] OTHER -> c       \* ' " ? \
(* one source character at i: <<value, next>>; wide decodes UTF-8 *)
OneChar(s, i, wide) ==
  LET c == At(s, i)
  IN IF c = BSL THEN LET d == At(s, i + 1)
                     IN IF d = 120 THEN HexRun(s, i + 2, 0)
                        ELSE IF IsOct(d) THEN OctRun(s, i + 1, 3, 0)
                        ELSE <<Simple(d), i + 2>>
     ELSE IF ~wide \/ c < 128 THEN <<c, i + 1>>
     ELSE IF c < 224 THEN <<(c % 32) * 64 + (At(s, i + 1) % 64), i + 2>>
     ELSE IF c < 240 THEN <<(c % 16) * 4096 + (At(s, i + 1) % 64) * 64 + (At(s, i + 2) % 64), i + 3>>
     ELSE <<(c % 8) * 262144 + (At(s, i + 1) % 64) * 4096 + (At(s, i + 2) % 64) * 64 + (At(s, i + 3) % 64), i + 4>>
RECURSIVE StrRun(_, _, _, _)
StrRun(s, i, wide, acc) == IF At(s, i) \in {34, 0} THEN <<acc, i + 1>>
                           ELSE LET r == OneChar(s, i, wide) IN StrRun(s, r[2], wide, Append(acc, r[1]))
(* phase 6: a run of adjacent literals, wide when any of them is *)
RECURSIVE Pieces(_, _, _)
Pieces(s, i, acc) ==      \* acc: positions after the opening quote, and whether the piece is wide
  LET w == At(s, i) = 76 /\ At(s, i + 1) = 34
  IN IF w \/ At(s, i) = 34
     THEN LET b == IF w THEN i + 2 ELSE i + 1
              e == StrRun(s, b, FALSE, <<>>)[2]
          IN Pieces(s, SkipWs(s, e), Append(acc, [b |-> b, w |-> w, e |-> e]))
     ELSE acc
RECURSIVE Join(_, _, _, _)
Join(s, ps, wide, k) == IF k > Len(ps) THEN <<>> ELSE StrRun(s, ps[k].b, wide, <<>>)[1] \o Join(s, ps, wide, k + 1)
StrTok(s, i) == LET ps == Pieces(s, i, <<>>)
                    wide == \E k \in DOMAIN ps : ps[k].w
                IN [next |-> ps[Len(ps)].e, tok |-> [k |-> IF wide THEN "wstr" ELSE "str", v |-> Append(Join(s, ps, wide, 1), 0)]]

-----------------------------------------------------------------------------
(* numbers *)
Text(s, i, j) == SubSeq(s, i, j - 1)
RECURSIVE WNum(_, _, _, _)
WNum(t, i, base, v) ==      \* digits from i: <<word, next>>
  LET c == At(t, i)
      ok == IF base = 16 THEN IsHex(c) ELSE IF base = 10 THEN IsDig(c) ELSE IF base = 8 THEN IsOct(c) ELSE c \in {48, 49}
  IN IF ok THEN WNum(t, i + 1, base, Add(Mul(v, FromSmall(base)), FromSmall(HexVal(c)))) ELSE <<v, i>>
Bits(g, k) == 8 * ScalarSize(g, k)
FitsK(g, k, v) == LET n == Bits(g, k) - (IF k \in SignedK THEN 1 ELSE 0)
                 IN n = 64 \/ IsZero(Shr(v, n))
Ladder(dec, u, l) ==
  LET all == <<"i", "u", "l", "ul", "ll", "ull">>
      rank(k) == CASE k \in {"i", "u"} -> 0 [] k \in {"l", "ul"} -> 1 [] k \in {"ll", "ull"} -> 2
      keep(k) == /\ rank(k) >= l
                 /\ (u => k \in {"u", "ul", "ull"})
                 /\ (dec /\ ~u => k \in {"i", "l", "ll"})
  IN SelectSeq(all, keep)
IntTok(g, t) ==
  LET pre == Low(At(t, 2))
      base == IF t[1] = 48 /\ pre = 120 THEN 16 ELSE IF t[1] = 48 /\ pre = 98 THEN 2 ELSE IF t[1] = 48 /\ Len(t) > 1 /\ IsDig(t[2]) THEN 8 ELSE 10
      r == WNum(t, IF base \in {16, 2} THEN 3 ELSE 1, base, W0)
      suf == [k \in 1..(Len(t) - r[2] + 1) |-> Low(t[r[2] + k - 1])]
      u == \E k \in DOMAIN suf : suf[k] = 117
      l == Cardinality({k \in DOMAIN suf : suf[k] = 108})
      cand == SelectSeq(Ladder(base = 10, u, l), LAMBDA k : FitsK(g, k, r[1]))
  IN [k |-> "int", t |-> IF cand = <<>> THEN "none" ELSE cand[1], w |-> r[1]]
(* floating constants: all digits as one natural, a power of ten or two *)
RECURSIVE FDigits(_, _, _, _, _, _)
FDigits(t, i, base, n, sc, dot) ==      \* <<natural, digits after the point, next>>
  LET c == At(t, i)
  IN IF c = 46 /\ ~dot THEN FDigits(t, i + 1, base, n, sc, TRUE)
     ELSE IF (IF base = 16 THEN IsHex(c) ELSE IsDig(c)) THEN FDigits(t, i + 1, base, NMulS(n, base, HexVal(c)), IF dot THEN sc + 1 ELSE sc, dot)
     ELSE <<n, sc, i>>
RECURSIVE IntRun(_, _, _)
IntRun(t, i, v) == IF IsDig(At(t, i)) THEN IntRun(t, i + 1, v * 10 + t[i] - 48) ELSE v
ExpOf(t, i) == IF Low(At(t, i)) \in {101, 112}
               THEN IF At(t, i + 1) = 45 THEN -IntRun(t, i + 2, 0) ELSE IntRun(t, IF At(t, i + 1) = 43 THEN i + 2 ELSE i + 1, 0)
               ELSE 0
RECURSIVE Div5(_, _)
Div5(n, j) == IF j = 0 THEN <<n, TRUE>> ELSE LET d == NDivS(n, 5) IN IF d[2] # 0 THEN <<n, FALSE>> ELSE Div5(d[1], j - 1)
FltTok(t) ==
  LET hex == t[1] = 48 /\ Low(At(t, 2)) = 120
      r == FDigits(t, IF hex THEN 3 ELSE 1, IF hex THEN 16 ELSE 10, <<>>, 0, FALSE)
      ex == ExpOf(t, r[3])
      last == Low(t[Len(t)])
      ty == IF last = 102 /\ (~hex \/ \E k \in DOMAIN t : Low(t[k]) = 112) THEN "f" ELSE IF last = 108 THEN "ld" ELSE "d"
      e10 == ex - r[2]
      d5 == IF hex THEN <<r[1], TRUE>> ELSE IF e10 < 0 THEN Div5(r[1], -e10) ELSE <<NMul(r[1], NPow(10, e10)), TRUE>>
      e2 == IF hex THEN ex - 4 * r[2] ELSE IF e10 < 0 THEN e10 ELSE 0
  IN [k |-> "flt", t |-> ty, ok |-> d5[2], w |-> FPack(T(IF ty = "f" THEN "f" ELSE "d"), Round(Fmt(T(IF ty = "f" THEN "f" ELSE "d")), 0, d5[1], e2, FALSE))]
IsFlt(t) == LET hex == t[1] = 48 /\ Low(At(t, 2)) = 120
            IN \E k \in DOMAIN t : t[k] = 46 \/ (hex /\ Low(t[k]) = 112) \/ (~hex /\ Low(t[k]) = 101)
NumTok(g, t) == IF IsFlt(t) THEN FltTok(t) ELSE IntTok(g, t)

(* the token at position i (not white space): [tok, next] *)
TokenAt(g, s, i) ==
  LET c == s[i]
  IN IF (c = 34) \/ (c = 76 /\ At(s, i + 1) = 34) THEN StrTok(s, i)
     ELSE IF c = 39 THEN LET r == OneChar(s, i + 1, FALSE) IN [next |-> r[2] + 1, tok |-> [k |-> "chr", v |-> IF r[1] >= 128 THEN r[1] - 256 ELSE r[1]]]
     ELSE IF c = 76 /\ At(s, i + 1) = 39 THEN LET r == OneChar(s, i + 2, TRUE) IN [next |-> r[2] + 1, tok |-> [k |-> "wchr", v |-> r[1]]]
     ELSE IF IsDig(c) \/ (c = 46 /\ IsDig(At(s, i + 1)))
     THEN LET e == NumEnd(s, i) IN [next |-> e, tok |-> NumTok(g, Text(s, i, e))]
     ELSE IF IsAlpha(c) THEN LET e == IdEnd(s, i) IN [next |-> e, tok |-> [k |-> "id"]]
     ELSE [next |-> OpEnd(s, i), tok |-> [k |-> "op"]]
=============================================================================
