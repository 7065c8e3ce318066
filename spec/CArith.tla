------------------------------- MODULE CArith -------------------------------
(* The value of every C operator on scalar operands.  A result is
   [ok |-> the operation is defined, t |-> type, w |-> word].               *)
EXTENDS CTypes

Res(t, w) == [ok |-> TRUE, t |-> t, w |-> w]
Undef(t) == [ok |-> FALSE, t |-> t, w |-> W0]
BoolW(b) == IF b THEN W1 ELSE W0
Truth(v) == IF IsFloat(v.t) THEN ~FIsZeroW(v.t, v.w) ELSE ~IsZero(v.w)

(* conversion of a scalar value to a scalar type *)
Conv(g, t, v) ==
  IF t.k = v.t.k /\ ~IsPtr(t) THEN Res(t, v.w)
  ELSE IF t.k = "v" THEN Res(t, W0)
  ELSE IF IsInt(t) THEN
         IF IsInt(v.t) THEN Res(t, ConvInt(g, t, v.w))
         ELSE IF IsPtr(v.t) THEN IF t.k = "b" \/ IsZero(v.w) THEN Res(t, ConvInt(g, t, v.w)) ELSE Undef(t)
         ELSE IF t.k = "b" THEN Res(t, BoolW(~FIsZeroW(v.t, v.w)))
         ELSE LET r == FToInt(g, t, v.t, v.w) IN [ok |-> r.ok, t |-> t, w |-> r.w]
  ELSE IF IsFloat(t) THEN
         IF IsInt(v.t) THEN Res(t, FFromInt(t, IsSigned(v.t), v.w))
         ELSE IF IsFloat(v.t) THEN Res(t, IF Fmt(t) = Fmt(v.t) THEN v.w ELSE FPack(t, UConv(Fmt(t), FUnpack(v.t, v.w))))
         ELSE Undef(t)
  ELSE \* pointer
       IF IsPtr(v.t) THEN Res(t, v.w)
       ELSE IF IsInt(v.t) /\ IsZero(v.w) THEN Res(t, W0) ELSE Undef(t)

(* signed result representable in type t?  w is the exact value as a word *)
Fits(g, t, w) == ConvInt(g, t, w) = w

IntBin(g, op, t, a, b) ==              \* a, b already converted to t
  LET wide == ScalarSize(g, t.k) = 8
      sg == IsSigned(t)
      fin(w, ov) == IF ~sg THEN Res(t, ConvInt(g, t, w))
                    ELSE IF wide THEN IF ov THEN Undef(t) ELSE Res(t, w)
                    ELSE IF Fits(g, t, w) THEN Res(t, w) ELSE Undef(t)
      cmp == IF sg THEN SLt(a, b) ELSE ULt(a, b)
  IN CASE op = "+" -> fin(Add(a, b), wide /\ sg /\ AddOv(a, b))
       [] op = "-" -> fin(Sub(a, b), wide /\ sg /\ SubOv(a, b))
       [] op = "*" -> fin(Mul(a, b), wide /\ sg /\ MulOv(a, b))
       [] op = "/" -> IF IsZero(b) THEN Undef(t)
                      ELSE IF sg THEN fin(SDivMod(a, b)[1], b = WM1 /\ a = WMin)
                      ELSE Res(t, UDivMod(a, b)[1])
       [] op = "%" -> IF IsZero(b) THEN Undef(t)
                      ELSE IF sg THEN IF b = WM1 /\ ~Fits(g, t, Neg(a)) THEN Undef(t)
                                      ELSE IF b = WM1 /\ a = WMin THEN Undef(t)
                                      ELSE Res(t, SDivMod(a, b)[2])
                      ELSE Res(t, UDivMod(a, b)[2])
       [] op = "&" -> Res(t, BAnd(a, b))
       [] op = "|" -> Res(t, BOr(a, b))
       [] op = "^" -> Res(t, BXor(a, b))
       [] op = "==" -> Res(TInt, BoolW(a = b))
       [] op = "!=" -> Res(TInt, BoolW(a # b))
       [] op = "<" -> Res(TInt, BoolW(cmp))
       [] op = ">=" -> Res(TInt, BoolW(~cmp))
       [] op = ">" -> Res(TInt, BoolW(~cmp /\ a # b))
       [] op = "<=" -> Res(TInt, BoolW(cmp \/ a = b))

ShiftOp(g, op, t, a, b) ==             \* t promoted left type, b any word
  LET n == 8 * ScalarSize(g, t.k)
      k == b[1]
      l == Shl(a, k)
  IN IF b[2] # 0 \/ b[3] # 0 \/ b[4] # 0 \/ k >= n THEN Undef(t)
     ELSE IF op = ">>" THEN Res(t, IF IsSigned(t) THEN Sar(a, k) ELSE Shr(a, k))
     ELSE IF IsSigned(t)
          THEN IF IsNeg(a) \/ ~Fits(g, t, l) \/ IsNeg(l) \/ Shr(l, k) # a THEN Undef(t) ELSE Res(t, l)
          ELSE Res(t, ConvInt(g, t, l))

FloatBin(op, t, a, b) ==
  LET f == Fmt(t)
      x == FUnpack(t, a)
      y == FUnpack(t, b)
      c == UCmp(x, y)
  IN CASE op = "+" -> Res(t, FPack(t, UAdd(f, x, y)))
       [] op = "-" -> Res(t, FPack(t, USub(f, x, y)))
       [] op = "*" -> Res(t, FPack(t, UMul(f, x, y)))
       [] op = "/" -> Res(t, FPack(t, UDiv(f, x, y)))
       [] op = "==" -> Res(TInt, BoolW(c = "eq"))
       [] op = "!=" -> Res(TInt, BoolW(c # "eq"))
       [] op = "<" -> Res(TInt, BoolW(c = "lt"))
       [] op = ">" -> Res(TInt, BoolW(c = "gt"))
       [] op = "<=" -> Res(TInt, BoolW(c \in {"lt", "eq"}))
       [] op = ">=" -> Res(TInt, BoolW(c \in {"gt", "eq"}))
       [] OTHER -> Undef(t)

IsShift(op) == op \in {"<<", ">>"}
RelOps == {"==", "!=", "<", ">", "<=", ">="}

ArithBin(g, op, va, vb) ==
  IF IsShift(op)
  THEN LET t == Promote(va.t) IN
       IF IsInt(va.t) /\ IsInt(vb.t)
       THEN ShiftOp(g, op, t, ConvInt(g, t, va.w), ConvInt(g, Promote(vb.t), vb.w)) ELSE Undef(TInt)
  ELSE LET t == UAC(g, va.t, vb.t)
           a == Conv(g, t, va)
           b == Conv(g, t, vb)
       IN IF IsFloat(t) THEN FloatBin(op, t, a.w, b.w) ELSE IntBin(g, op, t, a.w, b.w)

ArithUn(g, op, v) ==
  LET t == Promote(v.t)
      w == v.w
  IN CASE op = "!" -> Res(TInt, BoolW(~Truth(v)))
       [] op = "+" -> Res(t, w)
       [] op = "-" -> IF IsFloat(t) THEN Res(t, FNegW(t, w))
                      ELSE IF IsSigned(t)
                      THEN IF w = WMin \/ ~Fits(g, t, Neg(w)) THEN Undef(t) ELSE Res(t, Neg(w))
                      ELSE Res(t, ConvInt(g, t, Neg(w)))
       [] op = "~" -> IF IsFloat(t) THEN Undef(t) ELSE Res(t, ConvInt(g, t, WNot(w)))

(* static type of a binary operation on arithmetic operands *)
BinType(g, op, t1, t2) == IF op \in RelOps THEN TInt
                          ELSE IF IsShift(op) THEN Promote(t1) ELSE UAC(g, t1, t2)
=============================================================================
