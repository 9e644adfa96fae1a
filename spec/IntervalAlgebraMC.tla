-------------------------- MODULE IntervalAlgebraMC --------------------------
(* Exhaustive check of the interval algebra against its set denotation, for   *)
(* all pairs of small intervals; every pair is emitted for replay.            *)
EXTENDS IntervalIndices, TLC, Json
CONSTANTS MinNeg, MinHi, DimNeg, DimHi, N
MinLo == 0 - MinNeg
DimLo == 0 - DimNeg
VARIABLES a, b, e, k, done
vars == <<a, b, e, k, done>>
I == [min : [1..N -> MinLo..MinHi], dim : [1..N -> DimLo..DimHi]]
Init == a \in I /\ b \in I /\ e \in 1..N /\ k \in {-2, 0, 1} /\ done = FALSE
     /\ (e # 1 \/ k # -2 => b = a)          \* stacked does not depend on b
Next == ~done /\ done' = TRUE /\ UNCHANGED <<a, b, e, k>>
        /\ PrintT("@@" \o ToJson([a |-> a, b |-> b, e |-> e, k |-> k]))
Spec == Init /\ [][Next]_vars

SizeInv  == Size(a) = Cardinality(Den(a)) /\ (Empty(a) <=> Den(a) = {})
InsideInv == \A t \in [1..N -> (MinLo - 1)..(MinHi + DimHi + 1)] : Inside(a, t) <=> t \in Den(a)
InterInv == Den(Intersect(a, b)) = Den(a) \cap Den(b)
MinMaxInv == ~Empty(a) => /\ a.min \in Den(a) /\ MaxIdx(a) \in Den(a)
                          /\ \A t \in Den(a) : \A d \in 1..N : a.min[d] <= t[d] /\ t[d] <= MaxIdx(a)[d]
                          /\ FromMinMax(a.min, MaxIdx(a)) = a
StackInv == ~Empty(a) =>
    LET s == Stacked(a, e, k)  u == IF k >= 0 THEN [a EXCEPT !.dim[e] = @ + k]
                                    ELSE [a EXCEPT !.dim[e] = @ - k, !.min[e] = @ + k]
    IN  Den(s) \cap Den(a) = {} /\ Den(s) \cup Den(a) = Den(u)
TransInv == Den(Translate(a, b.min)) = {[d \in 1..N |-> t[d] + b.min[d]] : t \in Den(a)}
=============================================================================
