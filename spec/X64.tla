-------------------------------- MODULE X64 --------------------------------
(* What a sequence of bytes means to an x86-64 processor in 64-bit mode: the
   instruction that starts at a position, with its operands and its length.
   Written from the architecture manual (opcode maps, ModRM and SIB tables, the
   REX prefix), for the instructions the assembler knows and those an assembler
   might choose for the same effect.

   An operand is a record
     k    "r8" "h8" "r16" "r32" "r64" register n ("h8": ah ch dh bh), "x" xmm n,
          "i" immediate v, "m" memory, "t" branch target
     v    value or displacement, sign extended to 8 bytes (little endian)
     b x s  base (16: rip, -1: none), index (-1: none), scale;  g  "fs" or ""
     f    where a rip-relative displacement or branch offset starts in the
          instruction (0: there is none), fs its size                         *)
EXTENDS Integers, Sequences, TLC

At(bs, p) == IF p >= 1 /\ p <= Len(bs) THEN bs[p] ELSE 0
Sub4(bs, p, n) == [j \in 1..n |-> At(bs, p + j - 1)]
SX(q) == [j \in 1..8 |-> IF j <= Len(q) THEN q[j] ELSE IF q[Len(q)] >= 128 THEN 255 ELSE 0]
NoV == [j \in 1..8 |-> 0]
Opn(k, n) == [k |-> k, n |-> n, v |-> NoV, b |-> -1, x |-> -1, s |-> 1, g |-> "", f |-> 0, fs |-> 0]
Imm(q) == [Opn("i", 0) EXCEPT !.v = SX(q)]
One == Imm(<<1>>)
Xmm(n) == Opn("x", n)
Gpr(w, n, rex) == CASE w = 8 -> IF rex \/ n < 4 \/ n > 7 THEN Opn("r8", n) ELSE Opn("h8", n - 4)
                    [] w = 16 -> Opn("r16", n) [] w = 32 -> Opn("r32", n) [] OTHER -> Opn("r64", n)
Undef == [op |-> "?", w |-> 0, o |-> <<>>, len |-> 1]

(* ---- prefixes *)
RECURSIVE Prefixes(_, _, _)
Prefixes(bs, p, st) ==
  LET c == At(bs, p) IN
  CASE c = 102 -> Prefixes(bs, p + 1, [st EXCEPT !.o16 = TRUE, !.p = p + 1])
    [] c = 242 -> Prefixes(bs, p + 1, [st EXCEPT !.f2 = TRUE, !.p = p + 1])
    [] c = 243 -> Prefixes(bs, p + 1, [st EXCEPT !.f3 = TRUE, !.p = p + 1])
    [] c = 100 -> Prefixes(bs, p + 1, [st EXCEPT !.g = "fs", !.p = p + 1])
    [] c = 46  -> Prefixes(bs, p + 1, [st EXCEPT !.p = p + 1])
    [] OTHER -> st

(* ---- ModRM and SIB: [reg, op, len], op without its register kind when mod = 3 *)
ModRM(bs, p, start, X, B, g) ==
  LET m == At(bs, p)
      mod == m \div 64
      rm == m % 8
      sib == At(bs, p + 1)
      q == IF rm = 4 THEN p + 2 ELSE p + 1
      dsz == IF mod = 1 THEN 1 ELSE IF mod = 2 THEN 4
             ELSE IF rm = 5 \/ (rm = 4 /\ sib % 8 = 5) THEN 4 ELSE 0
      d == IF dsz = 0 THEN NoV ELSE SX(Sub4(bs, q, dsz))
      idx == ((sib \div 8) % 8) + 8 * X
      base == IF rm # 4 THEN IF mod = 0 /\ rm = 5 THEN 16 ELSE rm + 8 * B
              ELSE IF mod = 0 /\ sib % 8 = 5 THEN -1 ELSE (sib % 8) + 8 * B
      mem == [Opn("m", 0) EXCEPT !.v = d, !.b = base, !.g = g,
                !.x = IF rm = 4 /\ idx # 4 THEN idx ELSE -1,
                !.s = IF rm = 4 /\ idx # 4 THEN CASE sib \div 64 = 0 -> 1 [] sib \div 64 = 1 -> 2 [] sib \div 64 = 2 -> 4 [] OTHER -> 8 ELSE 1,
                !.f = IF base = 16 THEN q - start ELSE 0, !.fs = IF base = 16 THEN 4 ELSE 0]
  IN IF mod = 3 THEN [reg |-> (m \div 8) % 8, isreg |-> TRUE, rm |-> rm + 8 * B, mem |-> mem, len |-> 1]
     ELSE [reg |-> (m \div 8) % 8, isreg |-> FALSE, rm |-> 0, mem |-> mem, len |-> (q - p) + dsz]

AluName == <<"add", "or", "adc", "sbb", "and", "sub", "xor", "cmp">>
ShName == <<"rol", "ror", "rcl", "rcr", "shl", "shr", "sal", "sar">>
F7Name == <<"test", "test", "not", "neg", "mul", "imul", "div", "idiv">>

Decode(bs, start) ==
  LET pf == Prefixes(bs, start, [o16 |-> FALSE, f2 |-> FALSE, f3 |-> FALSE, g |-> "", p |-> start])
      hasrex == At(bs, pf.p) \div 16 = 4
      rexb == IF hasrex THEN At(bs, pf.p) % 16 ELSE 0
      W == rexb \div 8   R == (rexb \div 4) % 2   X == (rexb \div 2) % 2   B == rexb % 2
      p == IF hasrex THEN pf.p + 1 ELSE pf.p                   \* the opcode
      c == At(bs, p)
      sse == IF pf.f2 THEN "f2" ELSE IF pf.f3 THEN "f3" ELSE IF pf.o16 THEN "66" ELSE ""
      plain == ~pf.f2 /\ ~pf.f3
      wv == IF W = 1 THEN 64 ELSE IF pf.o16 THEN 16 ELSE 32
      wb(op) == IF op % 2 = 0 THEN 8 ELSE wv                   \* byte form when the low bit is clear
      izn(w) == IF w = 8 THEN 1 ELSE IF w = 16 THEN 2 ELSE 4
      mr == ModRM(bs, p + 1, start, X, B, pf.g)                \* for one-byte opcodes
      m2 == ModRM(bs, p + 2, start, X, B, pf.g)                \* for 0F xx
      after == p + 1 + mr.len
      after2 == p + 2 + m2.len
      rmop(m, w) == IF m.isreg THEN Gpr(w, m.rm, hasrex) ELSE m.mem
      rmx(m) == IF m.isreg THEN Xmm(m.rm) ELSE m.mem
      gop(m, w) == Gpr(w, m.reg + 8 * R, hasrex)
      gx(m) == Xmm(m.reg + 8 * R)
      I(op, w, o, end) == [op |-> op, w |-> w, o |-> o, len |-> end - start]
      rel(q, n) == [Opn("t", 0) EXCEPT !.v = SX(Sub4(bs, q, n)), !.f = q - start, !.fs = n]
      cc(op) == ToString(op % 16)
      c2 == At(bs, p + 1)
      one ==
        CASE c < 64 /\ c % 8 < 6 /\ plain ->
               LET nm == AluName[(c \div 8) + 1]  w == wb(c) IN
               (CASE c % 8 < 2 -> I(nm, w, <<gop(mr, w), rmop(mr, w)>>, after)
                 [] c % 8 < 4 -> I(nm, w, <<rmop(mr, w), gop(mr, w)>>, after)
                 [] OTHER -> I(nm, w, <<Imm(Sub4(bs, p + 1, izn(w))), Gpr(w, 0, TRUE)>>, p + 1 + izn(w)))
          [] c \in 80..87 /\ plain -> I("push", 64, <<Opn("r64", (c - 80) + 8 * B)>>, p + 1)
          [] c \in 88..95 /\ plain -> I("pop", 64, <<Opn("r64", (c - 88) + 8 * B)>>, p + 1)
          [] c = 99 /\ W = 1 -> I("movsx", 64, <<rmop(mr, 32), gop(mr, 64)>>, after)
          [] c = 104 /\ ~pf.o16 -> I("push", 64, <<Imm(Sub4(bs, p + 1, 4))>>, p + 5)
          [] c = 106 /\ ~pf.o16 -> I("push", 64, <<Imm(Sub4(bs, p + 1, 1))>>, p + 2)
          [] c \in 112..127 -> I("j" \o cc(c), 64, <<rel(p + 1, 1)>>, p + 2)
          [] c \in {128, 129, 131} ->
               LET w == IF c = 128 THEN 8 ELSE wv  n == IF c = 131 THEN 1 ELSE izn(w) IN
               I(AluName[mr.reg + 1], w, <<Imm(Sub4(bs, after, n)), rmop(mr, w)>>, after + n)
          [] c \in {132, 133} -> I("test", wb(c), <<gop(mr, wb(c)), rmop(mr, wb(c))>>, after)
          [] c \in {136, 137} -> I("mov", wb(c), <<gop(mr, wb(c)), rmop(mr, wb(c))>>, after)
          [] c \in {138, 139} -> I("mov", wb(c), <<rmop(mr, wb(c)), gop(mr, wb(c))>>, after)
          [] c = 141 /\ ~mr.isreg -> I("lea", wv, <<mr.mem, gop(mr, wv)>>, after)
          [] c = 144 /\ rexb % 2 = 0 /\ plain -> I("nop", 0, <<>>, p + 1)
          [] c = 152 -> I(CASE wv = 64 -> "cltq" [] wv = 32 -> "cwtl" [] OTHER -> "cbtw", 0, <<>>, p + 1)
          [] c = 153 -> I(CASE wv = 64 -> "cqto" [] wv = 32 -> "cltd" [] OTHER -> "cwtd", 0, <<>>, p + 1)
          [] c \in {168, 169} -> LET w == wb(c) IN I("test", w, <<Imm(Sub4(bs, p + 1, izn(w))), Gpr(w, 0, TRUE)>>, p + 1 + izn(w))
          [] c \in 160..163 /\ W = 0 /\ FALSE -> Undef
          [] c \in 176..183 -> I("mov", 8, <<Imm(Sub4(bs, p + 1, 1)), Gpr(8, (c - 176) + 8 * B, hasrex)>>, p + 2)
          [] c \in 184..191 -> LET n == wv \div 8 IN I("mov", wv, <<Imm(Sub4(bs, p + 1, n)), Gpr(wv, (c - 184) + 8 * B, hasrex)>>, p + 1 + n)
          [] c \in {192, 193} -> I(ShName[mr.reg + 1], wb(c), <<Imm(<<At(bs, after)>>), rmop(mr, wb(c))>>, after + 1)
          [] c \in {208, 209} -> I(ShName[mr.reg + 1], wb(c), <<One, rmop(mr, wb(c))>>, after)
          [] c \in {210, 211} -> I(ShName[mr.reg + 1], wb(c), <<Opn("r8", 1), rmop(mr, wb(c))>>, after)
          [] c = 195 /\ plain -> I("ret", 0, <<>>, p + 1)
          [] c \in {198, 199} /\ mr.reg = 0 -> LET w == wb(c) IN I("mov", w, <<Imm(Sub4(bs, after, izn(w))), rmop(mr, w)>>, after + izn(w))
          [] c = 204 -> I("int", 0, <<Imm(<<3>>)>>, p + 1)
          [] c = 205 -> I("int", 0, <<Imm(<<At(bs, p + 1)>>)>>, p + 2)
          [] c = 232 /\ ~pf.o16 -> I("call", 64, <<rel(p + 1, 4)>>, p + 5)
          [] c = 233 /\ ~pf.o16 -> I("jmp", 64, <<rel(p + 1, 4)>>, p + 5)
          [] c = 235 -> I("jmp", 64, <<rel(p + 1, 1)>>, p + 2)
          [] c \in {246, 247} ->
               LET w == wb(c) IN
               IF mr.reg < 2 THEN I("test", w, <<Imm(Sub4(bs, after, izn(w))), rmop(mr, w)>>, after + izn(w))
               ELSE I(F7Name[mr.reg + 1], w, <<rmop(mr, w)>>, after)
          [] c \in {254, 255} /\ mr.reg < 2 -> I(IF mr.reg = 0 THEN "inc" ELSE "dec", wb(c), <<rmop(mr, wb(c))>>, after)
          [] c = 255 /\ mr.reg = 2 -> I("call", 64, <<rmop(mr, 64)>>, after)
          [] c = 255 /\ mr.reg = 4 -> I("jmp", 64, <<rmop(mr, 64)>>, after)
          [] c = 255 /\ mr.reg = 6 -> I("push", 64, <<rmop(mr, 64)>>, after)
          [] c = 143 /\ mr.reg = 0 -> I("pop", 64, <<rmop(mr, 64)>>, after)
          [] OTHER -> Undef
      sdname(base) == CASE sse = "f2" -> base \o "sd" [] sse = "f3" -> base \o "ss" [] sse = "66" -> base \o "pd" [] OTHER -> base \o "ps"
      two ==
        CASE c2 = 5 -> I("syscall", 0, <<>>, p + 2)
          [] c2 = 30 /\ sse = "f3" /\ At(bs, p + 2) = 250 -> I("endbr64", 0, <<>>, p + 3)
          [] c2 = 31 /\ ~m2.isreg -> I("nop", 0, <<>>, after2)
          [] c2 = 16 /\ sse \in {"f2", "f3"} -> I(sdname("mov"), 0, <<rmx(m2), gx(m2)>>, after2)
          [] c2 = 17 /\ sse \in {"f2", "f3"} -> I(sdname("mov"), 0, <<gx(m2), rmx(m2)>>, after2)
          [] c2 = 42 /\ sse \in {"f2", "f3"} -> I(IF sse = "f2" THEN "cvtsi2sd" ELSE "cvtsi2ss", IF W = 1 THEN 64 ELSE 32, <<rmop(m2, IF W = 1 THEN 64 ELSE 32), gx(m2)>>, after2)
          [] c2 = 44 /\ sse \in {"f2", "f3"} -> I(IF sse = "f2" THEN "cvttsd2si" ELSE "cvttss2si", IF W = 1 THEN 64 ELSE 32, <<rmx(m2), gop(m2, IF W = 1 THEN 64 ELSE 32)>>, after2)
          [] c2 = 46 /\ sse \in {"", "66"} -> I(IF sse = "66" THEN "ucomisd" ELSE "ucomiss", 0, <<rmx(m2), gx(m2)>>, after2)
          [] c2 = 47 /\ sse \in {"", "66"} -> I(IF sse = "66" THEN "comisd" ELSE "comiss", 0, <<rmx(m2), gx(m2)>>, after2)
          [] c2 = 81 -> I(sdname("sqrt"), 0, <<rmx(m2), gx(m2)>>, after2)
          [] c2 = 87 /\ sse \in {"", "66"} -> I(sdname("xor"), 0, <<rmx(m2), gx(m2)>>, after2)
          [] c2 = 88 -> I(sdname("add"), 0, <<rmx(m2), gx(m2)>>, after2)
          [] c2 = 89 -> I(sdname("mul"), 0, <<rmx(m2), gx(m2)>>, after2)
          [] c2 = 92 -> I(sdname("sub"), 0, <<rmx(m2), gx(m2)>>, after2)
          [] c2 = 94 -> I(sdname("div"), 0, <<rmx(m2), gx(m2)>>, after2)
          [] c2 = 90 /\ sse \in {"f2", "f3"} -> I(IF sse = "f2" THEN "cvtsd2ss" ELSE "cvtss2sd", 0, <<rmx(m2), gx(m2)>>, after2)
          [] c2 \in 128..143 /\ ~pf.o16 -> I("j" \o cc(c2), 64, <<rel(p + 2, 4)>>, p + 6)
          [] c2 \in 144..159 -> I("set" \o cc(c2), 8, <<rmop(m2, 8)>>, after2)
          [] c2 \in {182, 183} -> I("movzx", wv, <<rmop(m2, IF c2 = 182 THEN 8 ELSE 16), gop(m2, wv)>>, after2)
          [] c2 \in {190, 191} -> I("movsx", wv, <<rmop(m2, IF c2 = 190 THEN 8 ELSE 16), gop(m2, wv)>>, after2)
          [] OTHER -> Undef
      r == IF c = 15 THEN two ELSE one
  IN IF start + r.len - 1 > Len(bs) THEN Undef ELSE r
=============================================================================
