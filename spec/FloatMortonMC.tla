---------------------------- MODULE FloatMortonMC ----------------------------
(* Vectors over all numbers of a small IEEE format: the Morton order defined   *)
(* by levels is the order of interleaved two's complement bits, a strict total *)
(* order in which a box lies between its corners.                              *)
EXTENDS Floats, TLC, Json
CONSTANTS EB, MB, Dim, Triples
VARIABLES a, b, ph
vars == <<a, b, ph>>
F == [eb |-> EB, mb |-> MB]
Words == [1..Width(F) -> {0, 1}]
NegZero == Compose(F, Zeros(MB), EMin(F), TRUE)
Nums == {w \in Words : IsNormal(F, w) \/ IsFZero(F, w)} \ {NegZero}
Vecs == [1..Dim -> Nums]
Sh == Bias(F) - 1 + MB
MagVal(w) == IF IsFZero(F, w) THEN 0 ELSE (Two(MB) + UInt(Man(F, w), MB)) * Two(Exp(F, w) + Bias(F) - 1)
Value(w) == IF Sign(F, w) THEN 0 - MagVal(w) ELSE MagVal(w)
NB == MB + Two(EB) + 1
(* interleaved key: offset to non-negative, then bit NB-1 of every dimension, bit NB-2, ... *)
BitOf(n, k) == (n \div Two(k)) % 2
Key(v) == [i \in 1..(NB * Dim) |-> BitOf(Value(v[1 + ((i - 1) % Dim)]) + Two(NB - 1), NB - 1 - ((i - 1) \div Dim))]
Init == a \in Vecs /\ b = a /\ ph = 0
Next == /\ ph = 0 /\ ph' = 1 /\ b' \in Vecs /\ a' = a
        /\ PrintT("@@" \o ToJson([a |-> a, b |-> b']))
Spec == Init /\ [][Next]_vars
L(u, v) == FMortonLess(F, u, v)
KeyInv == ph = 1 => L(a, b) = ULess(Key(a), Key(b))
TotalInv == ~L(a, a) /\ (a # b => L(a, b) # L(b, a))
TransInv == (Triples /\ ph = 1 /\ L(a, b)) => \A c \in Vecs : L(b, c) => L(a, c)
BoxInv == (\A d \in 1..Dim : FLeq(F, a[d], b[d])) => ~L(b, a)
=============================================================================
