------------------------------- MODULE BitsMC -------------------------------
(* Every bit pattern of the widths in Widths, signed and unsigned: the bit    *)
(* level definitions of Bits agree with the arithmetic meaning.  The patterns *)
(* are emitted and replayed in the real code.                                 *)
EXTENDS Bits, TLC, Json
CONSTANTS Widths
VARIABLES b, sg
vars == <<b, sg>>
RECURSIVE Val(_, _), P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Val(x, i) == IF i = 0 THEN 0 ELSE 2 * Val(x, i - 1) + x[i]
UVal(x) == Val(x, W(x))
IVal(s, x) == IF IsNeg(s, x) THEN UVal(x) - P2(W(x)) ELSE UVal(x)
V == IVal(sg, b)
A == IF V < 0 THEN 0 - V ELSE V
Init == /\ \E w \in Widths : b \in [1..w -> {0, 1}]
        /\ sg \in BOOLEAN
        /\ PrintT("@@" \o ToJson(b))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

NlzInv == /\ UVal(b) < P2(W(b) - Nlz(b))
          /\ (Nlz(b) < W(b)) => UVal(b) >= P2(W(b) - Nlz(b) - 1)
AbsInv == ~MostNeg(sg, b) => UVal(Abs(sg, b)) = A
LogInv == V # 0 => P2(Log2Mod(sg, b)) <= A /\ A < 2 * P2(Log2Mod(sg, b))
Pows == {P2(k) : k \in 0..W(b)}
(* positive: greatest power not above / least not below; zero: zero; negative: mirrored *)
FloorInv == LET r == IVal(sg, FloorPow2(sg, b)) IN
    IF V = 0 THEN r = 0
    ELSE IF V > 0 THEN r \in Pows /\ r <= V /\ \A p \in Pows : p <= V => p <= r
    ELSE FloorFits(sg, b) => (0 - r) \in Pows /\ r <= V /\ \A p \in Pows : (0 - p) <= V => (0 - p) <= r
CeilInv == LET r == IVal(sg, CeilPow2(sg, b)) IN
    IF V = 0 THEN r = 0
    ELSE IF V > 0 THEN CeilFits(sg, b) => (r \in Pows /\ r >= V /\ \A p \in Pows : p >= V => p >= r)
    ELSE (0 - r) \in Pows /\ r >= V /\ \A p \in Pows : (0 - p) >= V => (0 - p) >= r
FitInv == CeilFits(sg, b) = (V <= 0 \/ \E p \in Pows : p >= V /\ p <= (IF sg THEN P2(W(b) - 1) - 1 ELSE P2(W(b)) - 1)) \/ V < 0
LessInv == \A c \in [1..W(b) -> {0, 1}] : W(b) <= 5 => Less(sg, b, c) = (V < IVal(sg, c))
XorInv == \A c \in [1..W(b) -> {0, 1}] : W(b) <= 5 => FirstDiff(b, c) = FirstOne(Xor(b, c))
=============================================================================
