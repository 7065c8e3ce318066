------------------------------ MODULE MCBigNat ------------------------------
(* Exhaustive validation of BigNat on small limbs against integer arithmetic. *)
EXTENDS BigNat, Integers, TLC
VARIABLES x, y
RECURSIVE I(_)
I(a) == IF a = <<>> THEN 0 ELSE a[1] + Q * I(Tail(a))
W == 2^9
Init == x \in 0..W-1 /\ y = -1
Next == y < W - 1 /\ y' = y + 1 /\ x' = x
Spec == Init /\ [][Next]_<<x, y>>
A == NFromInt(x)
B == NFromInt(y)
Canon(a) == a = <<>> \/ a[Len(a)] # 0
OkRT == I(A) = x /\ Canon(A)
OkAdd == y < 0 \/ (I(NAdd(A, B)) = x + y /\ Canon(NAdd(A, B)))
OkSub == y < 0 \/ y > x \/ (I(NSub(A, B)) = x - y /\ Canon(NSub(A, B)))
OkMul == y < 0 \/ (I(NMul(A, B)) = x * y /\ Canon(NMul(A, B)))
OkDiv == y < 1 \/ LET d == NDivMod(A, B) IN I(d[1]) = x \div y /\ I(d[2]) = x % y /\ Canon(d[1]) /\ Canon(d[2])
OkCmp == y < 0 \/ NCmp(A, B) = (IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0)
OkShift == y < 0 \/ y > 12 \/ (I(NShl(A, y)) = x * 2^y /\ I(NShr(A, y)[1]) = x \div 2^y /\ (NShr(A, y)[2] <=> x % 2^y # 0))
OkLen == I(<<>>) = 0 /\ (x = 0 \/ (2^(NBitLen(A) - 1) <= x /\ x < 2^NBitLen(A)))
=============================================================================
