------------------------------ MODULE CPrintf ------------------------------
(* Formatted output.  The machine walks the format; its state is the position,
   the next argument and the characters produced.  Each transition handles one
   ordinary character or one conversion specification.  Numbers are exact:
   integers are big naturals with a sign, a floating argument is m * 2^e.
   A specification C leaves undefined (a flag with a conversion it does not
   apply to) ends the walk: the case is not a behaviour.                    *)
EXTENDS BigNat, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES pid, pos, arg, out, bad
vars == <<pid, pos, arg, out, bad>>

Digit == 48..57
Ch(f, j) == IF j <= Len(f) THEN f[j] ELSE 0
Rep(c, n) == [j \in 1..n |-> c]
Max(a, b) == IF a > b THEN a ELSE b

(* ---- reading a conversion specification; j is after the percent sign *)
RECURSIVE Flags(_, _, _)
Flags(f, j, S) == IF Ch(f, j) \in {45, 43, 48} THEN Flags(f, j + 1, S \cup {Ch(f, j)}) ELSE [s |-> S, j |-> j]
RECURSIVE Num(_, _, _)
Num(f, j, v) == IF Ch(f, j) \in Digit THEN Num(f, j + 1, v * 10 + (Ch(f, j) - 48)) ELSE [v |-> v, j |-> j]

(* -> [flags, w (width, 0 none), p (precision, -1 none), conv, next position, next argument] *)
Parse(f, j0, args, a0) ==
  LET fl == Flags(f, j0, {})
      ws == Ch(f, fl.j) = 42
      wn == IF ws THEN [v |-> args[a0].n, j |-> fl.j + 1] ELSE Num(f, fl.j, 0)
      a1 == IF ws THEN a0 + 1 ELSE a0
      left == 45 \in fl.s \/ wn.v < 0
      dot == Ch(f, wn.j) = 46
      pS == dot /\ Ch(f, wn.j + 1) = 42
      pn == IF ~dot THEN [v |-> -1, j |-> wn.j]
            ELSE IF pS THEN [v |-> IF args[a1].n < 0 THEN -1 ELSE args[a1].n, j |-> wn.j + 2]
            ELSE Num(f, wn.j + 1, 0)
      a2 == IF pS THEN a1 + 1 ELSE a1
      l1 == IF Ch(f, pn.j) \in {108, 122} THEN pn.j + 1 ELSE pn.j                  \* l or z
      l2 == IF Ch(f, pn.j) = 108 /\ Ch(f, l1) = 108 THEN l1 + 1 ELSE l1
  IN [left |-> left, plus |-> 43 \in fl.s, zero |-> 48 \in fl.s, w |-> IF wn.v < 0 THEN 0 - wn.v ELSE wn.v,
      p |-> pn.v, conv |-> Ch(f, l2), len |-> l2 - pn.j, j |-> l2 + 1, a |-> a2]

(* ---- a field: sign or prefix, digits, padded to the width *)
Field(c, prefix, body, zeroPad) ==
  LET n == Max(0, c.w - Len(prefix) - Len(body))
  IN IF c.left THEN prefix \o body \o Rep(32, n)
     ELSE IF zeroPad THEN prefix \o Rep(48, n) \o body
     ELSE Rep(32, n) \o prefix \o body

HexDig(d, up) == IF d < 10 THEN 48 + d ELSE IF up THEN 55 + d ELSE 87 + d
RECURSIVE HexR(_, _, _)
HexR(a, up, acc) == IF a = <<>> THEN acc ELSE LET d == NDivS(a, 16) IN HexR(d[1], up, <<HexDig(d[2], up)>> \o acc)
DecText(a) == IF a = <<>> THEN <<>> ELSE LET d == NDigits(a) IN [j \in DOMAIN d |-> 48 + d[j]]
(* at least the precision (default 1) of digits: zero with precision 0 is empty *)
AtLeast(s, p) == LET k == IF p < 0 THEN 1 ELSE p IN Rep(48, Max(0, k - Len(s))) \o s
Sign(neg, plus) == IF neg THEN <<45>> ELSE IF plus THEN <<43>> ELSE <<>>

(* ---- %f: the exact value to p decimals, ties to even *)
RoundShr(a, k) == \* a / 2^k to the nearest natural
  IF k = 0 THEN a
  ELSE LET q == NShr(a, k)[1] r == NSub(a, NShl(q, k)) h == NShl(<<1>>, k - 1) c == NCmp(r, h)
       IN IF c > 0 \/ (c = 0 /\ NOdd(q)) THEN NAdd(q, <<1>>) ELSE q
FixText(x, p) ==
  LET scaled == NMul(x.m, NPow(10, p))
      n == IF x.e >= 0 THEN NShl(scaled, x.e) ELSE RoundShr(scaled, 0 - x.e)
      d == LET t == DecText(n) IN Rep(48, Max(0, p + 1 - Len(t))) \o t
      k == Len(d) - p
  IN IF p = 0 THEN d ELSE SubSeq(d, 1, k) \o <<46>> \o SubSeq(d, k + 1, Len(d))
Inf3 == <<105, 110, 102>>
Nan3 == <<110, 97, 110>>

RECURSIVE UpTo(_, _, _)
UpTo(s, j, p) == IF (p >= 0 /\ j > p) \/ j > Len(s) \/ s[j] = 0 THEN j - 1 ELSE UpTo(s, j + 1, p)

(* -> [ok, text, number of arguments used] *)
Conv(c, args) ==
  LET v == args[c.a] plain == ~c.plus /\ ~c.zero IN
  CASE c.conv = 37 -> [ok |-> plain /\ ~c.left /\ c.w = 0 /\ c.p < 0 /\ c.len = 0, t |-> <<37>>, n |-> 0]
    [] c.conv = 100 -> [ok |-> TRUE, t |-> Field(c, Sign(v.neg, c.plus), AtLeast(DecText(v.mag), c.p), c.zero /\ c.p < 0), n |-> 1]
    [] c.conv = 117 -> [ok |-> TRUE, t |-> Field(c, <<>>, AtLeast(DecText(v.mag), c.p), c.zero /\ c.p < 0), n |-> 1]
    [] c.conv \in {120, 88} -> [ok |-> TRUE, t |-> Field(c, <<>>, AtLeast(HexR(v.mag, c.conv = 88, <<>>), c.p), c.zero /\ c.p < 0), n |-> 1]
    [] c.conv = 99 -> [ok |-> plain /\ c.p < 0 /\ c.len = 0, t |-> Field(c, <<>>, <<((v.n % 256) + 256) % 256>>, FALSE), n |-> 1]
    [] c.conv = 115 -> LET k == UpTo(v.s, 1, c.p) IN [ok |-> plain /\ c.len = 0 /\ (c.p >= 0 \/ k < Len(v.s)) /\ (c.p >= 0 => k = c.p \/ k < Len(v.s)),
                                                      t |-> Field(c, <<>>, SubSeq(v.s, 1, k), FALSE), n |-> 1]
    [] c.conv = 112 -> [ok |-> plain /\ c.p < 0 /\ c.len = 0, t |-> Field(c, <<48, 120>>, AtLeast(HexR(v.mag, FALSE, <<>>), -1), FALSE), n |-> 1]
    [] c.conv = 102 -> [ok |-> c.len <= 1, n |-> 1,
                        t |-> IF v.kind = "inf" THEN Field(c, Sign(v.neg, c.plus), Inf3, FALSE)
                              ELSE IF v.kind = "nan" THEN Field(c, Sign(v.neg, c.plus), Nan3, FALSE)
                              ELSE Field(c, Sign(v.neg, c.plus), FixText(v, IF c.p < 0 THEN 6 ELSE c.p), c.zero)]
    [] OTHER -> [ok |-> FALSE, t |-> <<>>, n |-> 0]

F == Cases[pid].f
Init == pid \in DOMAIN Cases /\ pos = 1 /\ arg = 1 /\ out = <<>> /\ bad = FALSE
Plain == /\ ~bad /\ pos >= 1 /\ pos <= Len(F) /\ F[pos] # 37
         /\ out' = Append(out, F[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<pid, arg, bad>>
Spec1 == /\ ~bad /\ pos >= 1 /\ pos <= Len(F) /\ F[pos] = 37
         /\ LET c == Parse(F, pos + 1, Cases[pid].args, arg) r == Conv(c, Cases[pid].args)
            IN /\ bad' = ~r.ok /\ out' = out \o r.t /\ pos' = c.j /\ arg' = c.a + r.n
         /\ pid' = pid
Finish == /\ pos >= 1 /\ (pos > Len(F) \/ bad)
          /\ PrintT("@@" \o ToJson([pid |-> pid, ok |-> ~bad, out |-> out]))
          /\ pos' = 0 /\ UNCHANGED <<pid, arg, out, bad>>
Next == Plain \/ Spec1 \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == arg <= Len(Cases[pid].args) + 1
=============================================================================
