------------------------- MODULE IntervalTraversalMC -------------------------
(* Both orders enumerate exactly the interval; boustrophedon moves by unit    *)
(* steps.  All intervals with side lengths Lo..Hi in 1..MaxN dimensions.      *)
EXTENDS IntervalIndices, TLC, Json
CONSTANTS Lo, Hi, MaxN
VARIABLES a, done
I == UNION {[min : {[d \in 1..n |-> d - 2]}, dim : [1..n -> Lo..Hi]] : n \in 1..MaxN}
Init == a \in I /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED a /\ PrintT("@@" \o ToJson(a))
Spec == Init /\ [][Next]_<<a, done>>
Rng(s) == {s[i] : i \in DOMAIN s}
RasterInv == ~Empty(a) => /\ Rng(RasterSeq(a)) = Den(a)
                          /\ \A i \in 1..Size(a) : RasterPos(a, RasterSeq(a)[i]) = i - 1
BoustInv == ~Empty(a) =>
    LET s == BoustSeq(a) IN /\ Rng(s) = Den(a) /\ Len(s) = Cardinality(Den(a))
                            /\ s[1] = a.min
                            /\ \A i \in 1..(Len(s) - 1) : UnitStep(s[i], s[i + 1])
EmptyInv == Empty(a) => RasterSeq(a) = <<>> /\ BoustSeq(a) = <<>>
=============================================================================
