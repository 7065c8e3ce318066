-------------------------------- MODULE CPP ---------------------------------
(***************************************************************************)
(* The C preprocessor: translation phase 4 as a machine over the lines of  *)
(* a set of files.  The state is the stack of files being read, the stack  *)
(* of conditional groups, the macro table, the text collected so far and   *)
(* the expanded tokens.  Macro expansion is Prosser's algorithm with hide  *)
(* sets; where C leaves the nesting of a replacement unspecified both      *)
(* readings are computed and a difference is reported as unspecified.      *)
(* A preprocessing token is [t: bytes, sp: preceded by white space,        *)
(* ln: line, hs: macro names it may not expand to, x: came from a macro,   *)
(* lz: string whose inner white space C does not settle].                  *)
(***************************************************************************)
EXTENDS CTok, CArith, Json, IOUtils, SequencesExt, FiniteSetsExt
Cases == JsonDeserialize(IOEnv.CASES)
LL == T("ll")
ULL == T("ull")

LPAR == <<40>>
RPAR == <<41>>
COMMA == <<44>>
HASH == <<35>>
HASHHASH == <<35, 35>>
VAARGS == <<95, 95, 86, 65, 95, 65, 82, 71, 83, 95, 95>>
DEFINED == <<100, 101, 102, 105, 110, 101, 100>>
LINEID == <<95, 95, 76, 73, 78, 69, 95, 95>>

Puncts == {<<c>> : c \in {91, 93, 40, 41, 123, 125, 46, 38, 42, 43, 45, 126, 33, 47, 37, 60, 62, 94, 124, 63, 58, 59, 61, 44, 35}}
          \cup Ops2 \cup Ops3 \cup {HASHHASH}
IsIdT(t) == IsAlpha(t[1]) /\ \A i \in DOMAIN t : IsAlpha(t[i]) \/ IsDig(t[i])
IsNumT(t) == LET f == IsDig(t[1]) \/ (t[1] = 46 /\ Len(t) > 1 /\ IsDig(t[2]))
             IN f /\ NumEnd(t, 1) = Len(t) + 1
IsStrT(t) == t[1] = 34 /\ Len(t) > 1 /\ StrRun(t, 2, FALSE, <<>>)[2] = Len(t) + 1
IsQuoted(t) == 34 \in {t[i] : i \in DOMAIN t} \/ 39 \in {t[i] : i \in DOMAIN t}
IsPPToken(t) == IsIdT(t) \/ IsNumT(t) \/ t \in Puncts \/ IsStrT(t) \/ (t[1] = 76 /\ Len(t) > 1 /\ IsStrT(Tail(t)))

Tok(t, sp) == [t |-> t, sp |-> sp, ln |-> 0, hs |-> {}, x |-> TRUE, lz |-> FALSE]

-----------------------------------------------------------------------------
(* # operator *)
EscT(t) == IF ~IsQuoted(t) THEN t
           ELSE FoldSeq(LAMBDA c, acc : IF c \in {34, BSL} THEN <<BSL, c>> \o acc ELSE <<c>> \o acc, <<>>, [i \in 1..Len(t) |-> t[Len(t) + 1 - i]])
RECURSIVE StrBody(_, _)
StrBody(arg, i) == IF i > Len(arg) THEN <<>>
                   ELSE (IF i > 1 /\ arg[i].sp THEN <<32>> ELSE <<>>) \o EscT(arg[i].t) \o StrBody(arg, i + 1)
(* the spelling is exact when every token of the argument was written in the source *)
Stringize(arg, sp) == [Tok(<<34>> \o StrBody(arg, 1) \o <<34>>, sp) EXCEPT !.lz = \E i \in DOMAIN arg : arg[i].x \/ arg[i].lz]

(* ## operator: token sequences glued at their ends; an empty one is a placemarker *)
Glue(a, b) == IF a = <<>> THEN [ok |-> TRUE, ts |-> b]
              ELSE IF b = <<>> THEN [ok |-> TRUE, ts |-> a]
              ELSE LET t == a[Len(a)].t \o b[1].t
                   IN [ok |-> IsPPToken(t) /\ ~(IsNumT(t) /\ t[Len(t)] = 46), ts |-> SubSeq(a, 1, Len(a) - 1)
                         \o <<[Tok(t, a[Len(a)].sp) EXCEPT !.hs = a[Len(a)].hs \cap b[1].hs, !.lz = a[Len(a)].lz \/ b[1].lz]>> \o Tail(b)]

-----------------------------------------------------------------------------
(* invocations: arguments of ts starting after the "(" at position i *)
RECURSIVE Args(_, _, _, _, _, _)
Args(ts, i, depth, cur, acc, cm) ==
  IF i > Len(ts) THEN [ok |-> FALSE, args |-> acc, next |-> i]
  ELSE LET t == ts[i].t
       IN IF t = RPAR /\ depth = 0 THEN [ok |-> TRUE, args |-> Append(acc, cur), next |-> i + 1, rp |-> ts[i], cm |-> cm]
          ELSE IF t = COMMA /\ depth = 0 THEN Args(ts, i + 1, 0, <<>>, Append(acc, cur), Append(cm, ts[i]))
          ELSE Args(ts, i + 1, IF t = LPAR THEN depth + 1 ELSE IF t = RPAR THEN depth - 1 ELSE depth, Append(cur, ts[i]), acc, cm)
RECURSIVE JoinArgs(_, _, _)
JoinArgs(as, cm, i) == IF i > Len(as) THEN <<>>
                   ELSE as[i] \o (IF i < Len(as) THEN <<cm[i]>> ELSE <<>>) \o JoinArgs(as, cm, i + 1)
(* arguments bound to parameters; the variable ones become one argument *)
Bind(m, as, cm) ==
  LET n == Len(m.params)
      as1 == IF n = 0 /\ Len(as) = 1 /\ as[1] = <<>> THEN <<>> ELSE as
  IN IF ~m.va THEN [ok |-> Len(as1) = n, blank |-> FALSE, as |-> as1]
     ELSE IF Len(as1) < n THEN [ok |-> FALSE, blank |-> FALSE, as |-> as1]
     ELSE [ok |-> TRUE, blank |-> Len(as1) = n + 1 /\ as1[n + 1] = <<>>, as |-> SubSeq(as1, 1, n) \o <<JoinArgs(SubSeq(as1, n + 1, Len(as1)), SubSeq(cm, n + 1, Len(cm)), 1)>>]
ParamIx(m, t) == LET ps == IF m.va THEN Append(m.params, VAARGS) ELSE m.params
                     is == {i \in DOMAIN ps : ps[i] = t}
                 IN IF ~m.fn \/ is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
(* GNU's , ## __VA_ARGS__ with a variable argument that is present but empty is not settled *)
CommaPaste(m) == \E i \in 2..(Len(m.body) - 1) : m.body[i].t = HASHHASH /\ m.body[i - 1].t = COMMA /\ m.body[i + 1].t = VAARGS
SetSp(ts, sp) == IF ts = <<>> THEN <<>> ELSE <<[ts[1] EXCEPT !.sp = sp]>> \o Tail(ts)
HsAdd(ts, hs) == [i \in DOMAIN ts |-> [ts[i] EXCEPT !.hs = @ \cup hs, !.x = TRUE]]

RECURSIVE Expand(_, _, _)
RECURSIVE Subst(_, _, _, _, _, _)
(* replacement list from position i on; cur is the item being built, as the expanded and raw arguments *)
Subst(m, i, raw, full, cur, out) ==
  LET bd == m.body
      isCat(k) == k >= 1 /\ k <= Len(bd) /\ bd[k].t = HASHHASH
  IN IF i > Len(bd) THEN [ok |-> TRUE, ts |-> out \o cur]
     ELSE LET cat == i > 1 /\ isCat(i)
              j == IF cat THEN i + 1 ELSE i                       \* the operand
              p == ParamIx(m, bd[j].t)
              str == m.fn /\ bd[j].t = HASH
              q == IF str THEN ParamIx(m, bd[j + 1].t) ELSE 0
              after == IF str THEN j + 2 ELSE j + 1
              comma == cat /\ p = Len(m.params) + 1 /\ m.va /\ bd[i - 1].t = COMMA   \* , ## __VA_ARGS__
              pasted == (cat /\ ~comma) \/ isCat(after)
              item == IF str THEN <<Stringize(raw[q], bd[j].sp)>>
                      ELSE IF p = 0 THEN <<[Tok(bd[j].t, bd[j].sp) EXCEPT !.ln = bd[j].ln]>>
                      ELSE SetSp(IF pasted \/ comma THEN raw[p] ELSE full[p], bd[j].sp)
          IN IF comma THEN IF item = <<>> THEN Subst(m, after, raw, full, SubSeq(cur, 1, Len(cur) - 1), out)
                           ELSE Subst(m, after, raw, full, item, out \o cur)
             ELSE IF cat THEN LET g == Glue(cur, item) IN IF ~g.ok THEN [ok |-> FALSE, ts |-> <<>>] ELSE Subst(m, after, raw, full, g.ts, out)
             ELSE Subst(m, after, raw, full, item, out \o cur)
(* md: how a replacement that ends outside the one it started in inherits hide sets; [err, ts] *)
Err(e) == [err |-> e, ts |-> <<>>]
RECURSIVE NumT(_)
NumT(n) == IF n < 10 THEN <<48 + n>> ELSE NumT(n \div 10) \o <<48 + (n % 10)>>
ConsTok(t, r) == IF r.err # "" THEN r ELSE [err |-> "", ts |-> <<t>> \o r.ts]
Expand(M, ts, md) ==
  IF ts = <<>> THEN [err |-> "", ts |-> <<>>]
  ELSE LET h == ts[1]
       IN IF h.t = LINEID THEN ConsTok(Tok(NumT(h.ln), h.sp), Expand(M, Tail(ts), md))
          ELSE IF h.t \notin DOMAIN M \/ h.t \in h.hs THEN ConsTok(h, Expand(M, Tail(ts), md))
          ELSE LET m == M[h.t]
               IN IF ~m.fn THEN
                    LET s == Subst(m, 1, <<>>, <<>>, <<>>, <<>>)
                    IN IF ~s.ok THEN Err("ub")
                       ELSE Expand(M, SetSp([k \in DOMAIN s.ts |-> [HsAdd(s.ts, h.hs \cup {h.t})[k] EXCEPT !.ln = h.ln]], h.sp) \o Tail(ts), md)
                  ELSE IF Len(ts) < 2 \/ ts[2].t # LPAR THEN ConsTok(h, Expand(M, Tail(ts), md))
                  ELSE LET a == Args(ts, 3, 0, <<>>, <<>>, <<>>)
                       IN IF ~a.ok THEN Err("unterminated")
                          ELSE LET b == Bind(m, a.args, a.cm)
                               IN IF ~b.ok THEN Err("args")
                                  ELSE IF b.blank /\ CommaPaste(m) THEN Err("unspecified")
                                  ELSE LET full == [k \in DOMAIN b.as |-> Expand(M, b.as[k], md)]
                                           bad == {k \in DOMAIN full : full[k].err # ""}
                                           hs == (IF md = "in" THEN h.hs \cap a.rp.hs ELSE h.hs \cup a.rp.hs) \cup {h.t}
                                           s == Subst(m, 1, b.as, [k \in DOMAIN full |-> full[k].ts], <<>>, <<>>)
                                       IN IF bad # {} THEN Err("arg:" \o full[CHOOSE k \in bad : TRUE].err)
                                          ELSE IF ~s.ok THEN Err("ub")
                                          ELSE Expand(M, SetSp([k \in DOMAIN s.ts |-> IF s.ts[k].ln = 0 THEN [HsAdd(s.ts, hs)[k] EXCEPT !.ln = h.ln] ELSE HsAdd(s.ts, hs)[k]], h.sp)
                                                         \o SubSeq(ts, a.next, Len(ts)), md)
(* an argument is expanded as if it were the rest of the file, so an argument never ends inside an invocation *)
ExpandBoth(M, ts) ==
  LET a == Expand(M, ts, "in")
      b == Expand(M, ts, "un")
      txt(r) == <<r.err, [i \in DOMAIN r.ts |-> r.ts[i].t]>>
  IN IF txt(a) = txt(b) THEN a ELSE Err("unspecified")

-----------------------------------------------------------------------------
(* #if expressions *)
OpName == (<<42>> :> "*" @@ <<47>> :> "/" @@ <<37>> :> "%" @@ <<43>> :> "+" @@ <<45>> :> "-" @@ <<60, 60>> :> "<<" @@ <<62, 62>> :> ">>"
           @@ <<60>> :> "<" @@ <<62>> :> ">" @@ <<60, 61>> :> "<=" @@ <<62, 61>> :> ">=" @@ <<61, 61>> :> "==" @@ <<33, 61>> :> "!="
           @@ <<38>> :> "&" @@ <<94>> :> "^" @@ <<124>> :> "|" @@ <<38, 38>> :> "&&" @@ <<124, 124>> :> "||" @@ <<63>> :> "?")
PrecOf(op) == CASE op \in {"*", "/", "%"} -> 10 [] op \in {"+", "-"} -> 9 [] op \in {"<<", ">>"} -> 8
                [] op \in {"<", ">", "<=", ">="} -> 7 [] op \in {"==", "!="} -> 6 [] op = "&" -> 5 [] op = "^" -> 4
                [] op = "|" -> 3 [] op = "&&" -> 2 [] op = "||" -> 1 [] op = "?" -> 0
Wide(v) == [v EXCEPT !.t = IF IsSigned(v.t) THEN LL ELSE ULL]
BinV(op, a, b) == IF op = "&&" THEN IF a.ok /\ IsZero(a.w) THEN Res(LL, W0) ELSE [ok |-> a.ok /\ b.ok, t |-> LL, w |-> BoolW(~IsZero(b.w))]
                  ELSE IF op = "||" THEN IF a.ok /\ ~IsZero(a.w) THEN Res(LL, W1) ELSE [ok |-> a.ok /\ b.ok, t |-> LL, w |-> BoolW(~IsZero(b.w))]
                  ELSE LET r == Wide(ArithBin("x64", op, a, b)) IN [r EXCEPT !.ok = @ /\ a.ok /\ b.ok]
CondV(c, a, b) == LET t == IF a.t = ULL \/ b.t = ULL THEN ULL ELSE LL
                      r == IF IsZero(c.w) THEN b ELSE a
                  IN [ok |-> c.ok /\ r.ok, t |-> t, w |-> r.w]
AtT(ts, i) == IF i <= Len(ts) THEN ts[i].t ELSE <<>>
Bad == [ok |-> FALSE, v |-> Undef(LL), i |-> 0]
LitV(t) == IF t[1] = 39 THEN LET r == OneChar(t, 2, FALSE) IN Res(LL, FromInt(IF r[1] >= 128 THEN r[1] - 256 ELSE r[1]))
           ELSE LET x == IntTok("x64", t) IN Res(IF x.t \in SignedK THEN LL ELSE ULL, x.w)
RECURSIVE PExpr(_, _, _)
RECURSIVE PBin(_, _, _, _)
PUnary(ts, i) ==
  LET t == AtT(ts, i)
  IN IF t = <<>> THEN Bad
     ELSE IF t \in {<<43>>, <<45>>, <<33>>, <<126>>}
     THEN LET r == PExpr(ts, i + 1, 11)
              op == CASE t = <<43>> -> "+" [] t = <<45>> -> "-" [] t = <<33>> -> "!" [] t = <<126>> -> "~"
          IN IF ~r.ok THEN Bad ELSE [r EXCEPT !.v = LET x == Wide(ArithUn("x64", op, r.v)) IN [x EXCEPT !.ok = @ /\ r.v.ok]]
     ELSE IF t = LPAR THEN LET r == PExpr(ts, i + 1, 0) IN IF r.ok /\ AtT(ts, r.i) = RPAR THEN [r EXCEPT !.i = @ + 1] ELSE Bad
     ELSE IF IsNumT(t) \/ t[1] = 39 THEN [ok |-> TRUE, v |-> LitV(t), i |-> i + 1]
     ELSE IF IsIdT(t) THEN [ok |-> TRUE, v |-> Res(LL, W0), i |-> i + 1]
     ELSE Bad
PExpr(ts, i, minp) == LET l == PUnary(ts, i) IN IF ~l.ok THEN Bad ELSE PBin(ts, l.i, minp, l.v)
PBin(ts, i, minp, lv) ==
  LET t == AtT(ts, i)
  IN IF t \notin DOMAIN OpName THEN [ok |-> TRUE, v |-> lv, i |-> i]
     ELSE LET op == OpName[t]
          IN IF PrecOf(op) < minp THEN [ok |-> TRUE, v |-> lv, i |-> i]
             ELSE IF op = "?" THEN LET a == PExpr(ts, i + 1, 0)
                                   IN IF ~a.ok \/ AtT(ts, a.i) # <<58>> THEN Bad
                                      ELSE LET b == PExpr(ts, a.i + 1, 0) IN IF ~b.ok THEN Bad ELSE [ok |-> TRUE, v |-> CondV(lv, a.v, b.v), i |-> b.i]
             ELSE LET r == PExpr(ts, i + 1, PrecOf(op) + 1) IN IF ~r.ok THEN Bad ELSE PBin(ts, r.i, minp, BinV(op, lv, r.v))
(* defined X, defined(X) before expansion *)
RECURSIVE Defineds(_, _, _)
Defineds(M, ts, i) ==
  IF i > Len(ts) THEN <<>>
  ELSE IF ts[i].t # DEFINED THEN <<ts[i]>> \o Defineds(M, ts, i + 1)
  ELSE LET par == AtT(ts, i + 1) = LPAR
           n == AtT(ts, IF par THEN i + 2 ELSE i + 1)
       IN <<[ts[i] EXCEPT !.t = IF n \in DOMAIN M THEN <<49>> ELSE <<48>>]>> \o Defineds(M, ts, IF par THEN i + 4 ELSE i + 2)
(* [err, v]: value of a controlling expression *)
CondExpr(M, ts) ==
  LET e == ExpandBoth(M, Defineds(M, ts, 1))
      p == PExpr(e.ts, 1, 0)
  IN IF e.err # "" THEN [err |-> e.err, v |-> FALSE]
     ELSE IF ~p.ok \/ p.i # Len(e.ts) + 1 THEN [err |-> "syntax", v |-> FALSE]
     ELSE IF ~p.v.ok THEN [err |-> "ub", v |-> FALSE]
     ELSE [err |-> "", v |-> ~IsZero(p.v.w)]

-----------------------------------------------------------------------------
VARIABLES pid, fs, cs, mac, once, pend, out, err, done
vars == <<pid, fs, cs, mac, once, pend, out, err, done>>
C == Cases[pid]
F == fs[Len(fs)]
Lines == C.files[F.f].lines
On == \A i \in DOMAIN cs : cs[i].on
Outer == \A i \in 1..(Len(cs) - 1) : cs[i].on
Mac(l) == [fn |-> l.fn, va |-> l.va, params |-> l.params, body |-> l.body]
Src(ts) == [i \in DOMAIN ts |-> [t |-> ts[i].t, sp |-> ts[i].sp, ln |-> ts[i].ln + F.off, hs |-> {}, x |-> FALSE, lz |-> FALSE]]

RECURSIVE DirOf(_, _)
DirOf(p, i) == IF i = 0 THEN <<>> ELSE IF p[i] = 47 THEN SubSeq(p, 1, i) ELSE DirOf(p, i - 1)
FileAt(path) == LET is == {i \in DOMAIN C.files : C.files[i].path = path} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
Find(name, quoted) ==
  LET dirs == (IF quoted THEN <<DirOf(C.files[F.f].path, Len(C.files[F.f].path))>> ELSE <<>>) \o C.inc
      hit == {i \in DOMAIN dirs : FileAt(dirs[i] \o name) # 0}
  IN IF hit = {} THEN 0 ELSE FileAt(dirs[Min(hit)] \o name)

Init == /\ pid \in DOMAIN Cases
        /\ fs = <<[f |-> 1, pos |-> 1, off |-> 0, base |-> 0]>> /\ cs = <<>> /\ mac = <<>> /\ once = {} /\ pend = <<>> /\ out = <<>> /\ err = "" /\ done = FALSE
Advance == fs' = [fs EXCEPT ![Len(fs)].pos = @ + 1]
Flush == LET e == ExpandBoth(mac, pend) IN
         IF e.err # "" THEN /\ err' = e.err /\ UNCHANGED <<out, pend>>
         ELSE /\ out' = out \o [i \in DOMAIN e.ts |-> [t |-> e.ts[i].t, lz |-> e.ts[i].lz]] /\ pend' = <<>> /\ UNCHANGED err
(* text is collected; everything else first expands what was collected *)
Line == /\ ~done /\ err = "" /\ F.pos <= Len(Lines)
        /\ LET l == Lines[F.pos]
           IN IF l.k = "text" THEN /\ pend' = (IF On THEN pend \o Src(l.ts) ELSE pend) /\ Advance /\ UNCHANGED <<cs, mac, once, out, err>>
              ELSE IF pend # <<>> THEN Flush /\ UNCHANGED <<fs, cs, mac, once>>
              ELSE IF l.k \in {"if", "ifdef", "ifndef"} THEN
                   LET v == IF ~On THEN [err |-> "", v |-> FALSE]
                            ELSE IF l.k = "if" THEN CondExpr(mac, Src(l.ts))
                            ELSE [err |-> "", v |-> (l.name \in DOMAIN mac) = (l.k = "ifdef")]
                   IN /\ cs' = Append(cs, [on |-> v.v, taken |-> v.v \/ ~On, els |-> FALSE])
                      /\ err' = v.err /\ Advance /\ UNCHANGED <<mac, once, pend, out>>
              ELSE IF l.k \in {"elif", "else", "endif"} THEN
                   IF Len(cs) <= F.base \/ (l.k # "endif" /\ cs[Len(cs)].els) THEN err' = "nesting" /\ UNCHANGED <<fs, cs, mac, once, pend, out>>
                   ELSE LET c == cs[Len(cs)]
                            try == Outer /\ ~c.taken
                            v == IF l.k = "else" THEN [err |-> "", v |-> try] ELSE IF l.k = "elif" /\ try THEN CondExpr(mac, Src(l.ts)) ELSE [err |-> "", v |-> FALSE]
                        IN /\ cs' = IF l.k = "endif" THEN SubSeq(cs, 1, Len(cs) - 1)
                                    ELSE [cs EXCEPT ![Len(cs)] = [on |-> v.v, taken |-> @.taken \/ v.v, els |-> l.k = "else"]]
                           /\ err' = v.err /\ Advance /\ UNCHANGED <<mac, once, pend, out>>
              ELSE IF ~On THEN Advance /\ UNCHANGED <<cs, mac, once, pend, out, err>>
              ELSE IF l.k = "define" THEN /\ mac' = (l.name :> Mac(l)) @@ mac /\ Advance /\ UNCHANGED <<cs, once, pend, out, err>>
              ELSE IF l.k = "undef" THEN /\ mac' = [n \in DOMAIN mac \ {l.name} |-> mac[n]] /\ Advance /\ UNCHANGED <<cs, once, pend, out, err>>
              ELSE IF l.k = "once" THEN /\ once' = once \cup {F.f} /\ Advance /\ UNCHANGED <<cs, mac, pend, out, err>>
              ELSE IF l.k = "line" THEN /\ fs' = [fs EXCEPT ![Len(fs)].pos = @ + 1, ![Len(fs)].off = l.n - (l.ln + 1)] /\ UNCHANGED <<cs, mac, once, pend, out, err>>
              ELSE IF l.k = "null" THEN Advance /\ UNCHANGED <<cs, mac, once, pend, out, err>>
              ELSE IF l.k = "include" THEN
                   LET e == IF l.ts = <<>> THEN [err |-> "", ts |-> <<>>] ELSE ExpandBoth(mac, Src(l.ts))
                       quoted == IF l.ts = <<>> THEN l.quoted ELSE TRUE
                       name == IF l.ts = <<>> THEN l.name ELSE IF e.ts = <<>> THEN <<>> ELSE SubSeq(e.ts[1].t, 2, Len(e.ts[1].t) - 1)
                       f == IF e.err # "" THEN 0 ELSE Find(name, quoted)
                   IN IF e.err # "" THEN err' = e.err /\ UNCHANGED <<fs, cs, mac, once, pend, out>>
                      ELSE IF f = 0 THEN err' = "nofile" /\ UNCHANGED <<fs, cs, mac, once, pend, out>>
                      ELSE IF f \in once THEN Advance /\ UNCHANGED <<cs, mac, once, pend, out, err>>
                      ELSE IF Len(fs) > 12 THEN err' = "deep" /\ UNCHANGED <<fs, cs, mac, once, pend, out>>
                      ELSE /\ fs' = Append([fs EXCEPT ![Len(fs)].pos = @ + 1], [f |-> f, pos |-> 1, off |-> 0, base |-> Len(cs)])
                           /\ UNCHANGED <<cs, mac, once, pend, out, err>>
              ELSE \* #error, or a directive that is none
                   err' = "error" /\ UNCHANGED <<fs, cs, mac, once, pend, out>>
        /\ UNCHANGED <<pid, done>>
EndFile == /\ ~done /\ err = "" /\ F.pos > Len(Lines)
           /\ IF pend # <<>> THEN Flush /\ UNCHANGED <<fs, done>>
              ELSE IF Len(cs) # F.base THEN err' = "nesting" /\ UNCHANGED <<fs, out, pend, done>>
              ELSE IF Len(fs) > 1 THEN fs' = SubSeq(fs, 1, Len(fs) - 1) /\ UNCHANGED <<out, pend, err, done>>
              ELSE /\ done' = TRUE /\ PrintT("@@" \o ToJson([pid |-> pid, err |-> err, out |-> out]))
                   /\ UNCHANGED <<fs, out, pend, err>>
           /\ UNCHANGED <<pid, cs, mac, once>>
Fail == /\ ~done /\ err # "" /\ done' = TRUE
        /\ PrintT("@@" \o ToJson([pid |-> pid, err |-> err, out |-> out]))
        /\ UNCHANGED <<pid, fs, cs, mac, once, pend, out, err>>
Next == Line \/ EndFile \/ Fail
Spec == Init /\ [][Next]_vars
(* at most one group of each conditional has been taken, a group is only on inside groups that are on, expanded text names no expandable object-like macro but its own *)
TypeOK == /\ \A i \in DOMAIN cs : cs[i].on => cs[i].taken
          /\ Len(fs) >= 1 /\ \A i \in 2..Len(fs) : fs[i].base >= fs[i - 1].base
          /\ \A i \in DOMAIN cs : (cs[i].on => \A j \in 1..(i - 1) : cs[j].on)
=============================================================================
