-------------------------------- MODULE Bits --------------------------------
(* Machine integers as bit sequences (most significant bit first) of any      *)
(* width, because TLC's integers have 32 bits: leading zeros, logarithms,     *)
(* powers of two, two's complement, order.                                    *)
EXTENDS Integers, Sequences, FiniteSets

W(b) == Len(b)
Zeros(w) == [i \in 1..w |-> 0]
IsZero(b) == \A i \in 1..W(b) : b[i] = 0
(* position of the first 1 (w + 1 if there is none), of the last 1 (0 if none) *)
FirstOne(b) == IF IsZero(b) THEN W(b) + 1 ELSE CHOOSE i \in 1..W(b) : b[i] = 1 /\ \A j \in 1..(i - 1) : b[j] = 0
LastOne(b)  == IF IsZero(b) THEN 0 ELSE CHOOSE i \in 1..W(b) : b[i] = 1 /\ \A j \in (i + 1)..W(b) : b[j] = 0
Nlz(b) == FirstOne(b) - 1
Neg(b) == LET k == LastOne(b) IN [i \in 1..W(b) |-> IF i < k THEN 1 - b[i] ELSE b[i]]
OneAt(w, i) == [j \in 1..w |-> IF j = i THEN 1 ELSE 0]
Xor(a, b) == [i \in 1..W(a) |-> (a[i] + b[i]) % 2]
FirstDiff(a, b) == IF a = b THEN W(a) + 1 ELSE CHOOSE i \in 1..W(a) : a[i] # b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
ULess(a, b) == a # b /\ a[FirstDiff(a, b)] = 0

IsNeg(sg, b) == sg /\ b[1] = 1
Flip(sg, b) == IF sg THEN [b EXCEPT ![1] = 1 - @] ELSE b      \* offset binary
Less(sg, a, b) == ULess(Flip(sg, a), Flip(sg, b))
Abs(sg, b) == IF IsNeg(sg, b) THEN Neg(b) ELSE b
MostNeg(sg, b) == sg /\ b = OneAt(W(b), 1)

(* ---- the functions of bit_manip.h / numeric_traits.h ---- *)
Log2Mod(sg, b) == W(b) - FirstOne(Abs(sg, b))              \* for b # 0
FloorU(b) == IF IsZero(b) THEN b ELSE OneAt(W(b), FirstOne(b))
CeilU(b)  == IF IsZero(b) \/ b = FloorU(b) THEN b ELSE OneAt(W(b), FirstOne(b) - 1)
(* is the least power of two above a non-negative value representable? *)
CeilFits(sg, b) == IsZero(b) \/ (IF b = FloorU(b) THEN TRUE ELSE FirstOne(b) > (IF sg THEN 2 ELSE 1))
FloorPow2(sg, b) == IF IsNeg(sg, b) THEN Neg(CeilU(Neg(b))) ELSE FloorU(b)
CeilPow2(sg, b)  == IF IsNeg(sg, b) THEN Neg(FloorU(Neg(b))) ELSE CeilU(b)
FloorFits(sg, b) == IsNeg(sg, b) => CeilU(Neg(b)) = Neg(b) \/ FirstOne(Neg(b)) > 1
=============================================================================
