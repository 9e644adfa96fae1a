------------------------------ MODULE FloatsMC ------------------------------
(* All words of small IEEE formats: the word level definitions of Floats agree *)
(* with exact integer arithmetic on the values (scaled by a power of two).    *)
EXTENDS Floats, TLC, Json
CONSTANTS EB, MB
VARIABLES x, y, ph
vars == <<x, y, ph>>
F == [eb |-> EB, mb |-> MB]
Words == [1..Width(F) -> {0, 1}]
NegZero == Compose(F, Zeros(MB), EMin(F), TRUE)
Nums == {w \in Words : IsNormal(F, w) \/ IsFZero(F, w)} \ {NegZero}
(* value * 2^Sh as an integer *)
Sh == Bias(F) - 1 + MB
MagVal(w) == IF IsFZero(F, w) THEN 0 ELSE (Two(MB) + UInt(Man(F, w), MB)) * Two(Exp(F, w) + Bias(F) - 1)
Value(w) == IF Sign(F, w) THEN 0 - MagVal(w) ELSE MagVal(w)
Init == x \in Words /\ y = x /\ ph = 0 /\ PrintT("@@" \o ToJson(x))
Next == ph = 0 /\ ph' = 1 /\ y' \in Words /\ x' = x
Spec == Init /\ [][Next]_vars

InvInv == Compose(F, Man(F, x), Exp(F, x), Sign(F, x)) = x
KindInv == Cardinality({k \in {"zero", "norm", "inf", "nan", "sub"} :
            CASE k = "zero" -> IsFZero(F, x) [] k = "norm" -> IsNormal(F, x) [] k = "inf" -> IsInf(F, x) [] k = "nan" -> IsNaN(F, x)
              [] k = "sub" -> Exp(F, x) = EMin(F) /\ ~IsZero(Man(F, x))}) = 1
Both == x \in Nums /\ y \in Nums
OrderInv == Both => FLess(F, x, y) = (Value(x) < Value(y)) /\ (Value(x) = Value(y)) = (x = y)
(* level of the highest differing bit of two's complement integers (finer by one bit than the values) *)
RECURSIVE HighBit(_, _, _)
HighBit(a, b, k) == IF (a \div Two(k)) # (b \div Two(k)) THEN HighBit(a, b, k + 1) ELSE k - 1
LevelInv == Both => IF x = y THEN Level(F, x, y) = NoLevel(F)
                    ELSE IF Sign(F, x) # Sign(F, y) THEN Level(F, x, y) = TopLevel(F)
                    ELSE Level(F, x, y) = HighBit(Value(x), Value(y), 0) - Sh
(* the block is the smallest dyadic interval containing both magnitudes, mid separates *)
BlockInv == (Both /\ x # y /\ Sign(F, x) = Sign(F, y)) =>
    LET B == FBlock(F, x, y)
        lo == IF MagVal(x) < MagVal(y) THEN MagVal(x) ELSE MagVal(y)
        hi == IF MagVal(x) < MagVal(y) THEN MagVal(y) ELSE MagVal(x)
        big == IF MagLess(x, y) THEN y ELSE x
        sz == Two(B.level + Sh)
        inner == IF Sign(F, x) THEN B.upp ELSE B.low
        outer == IF Sign(F, x) THEN B.low ELSE B.upp
    IN  /\ MagVal(inner) % sz = 0 /\ MagVal(inner) <= lo /\ hi <= MagVal(outer)
        /\ MagVal(outer) < MagVal(inner) + sz
        /\ ~\E w \in Nums : Exp(F, w) = Exp(F, big) /\ MagVal(w) > MagVal(outer) /\ MagVal(w) < MagVal(inner) + sz
        /\ lo \div (sz \div 2) # hi \div (sz \div 2)                  \* smallest
        /\ lo < MagVal(B.mid) /\ MagVal(B.mid) <= hi
        /\ 2 * (MagVal(B.mid) - MagVal(inner)) = sz
=============================================================================
