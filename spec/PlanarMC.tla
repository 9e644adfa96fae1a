------------------------------ MODULE PlanarMC ------------------------------
(* All triples of angles within a few turns, all triples of small points.     *)
EXTENDS Planar, TLC, Json
CONSTANTS N, Turns, Grid
VARIABLES a, b, e, phase
vars == <<a, b, e, phase>>
Ang == (0 - N)..(N * Turns)
Pts == (0..Grid) \X (0..Grid)
Init == phase = "start" /\ a = 0 /\ b = 0 /\ e = 0
Next == \/ /\ phase = "start" /\ phase' = "beg" /\ b' \in 0..(N - 1) /\ UNCHANGED <<a, e>>
        \/ /\ phase = "beg" /\ phase' = "angle" /\ a' \in Ang /\ e' \in Ang /\ UNCHANGED b
           /\ (Decided(N, a', b, e') => PrintT("@@" \o ToJson([k |-> "arc", a |-> a', b |-> b, e |-> e'])))
        \/ /\ phase = "start" /\ phase' = "p" /\ b' \in Pts /\ UNCHANGED <<a, e>>
        \/ /\ phase = "p" /\ phase' = "ccw" /\ a' \in Pts /\ e' \in Pts /\ UNCHANGED b
           /\ PrintT("@@" \o ToJson([k |-> "ccw", p |-> a', q |-> b, r |-> e']))
Spec == Init /\ [][Next]_vars
(* an arc and its complement *)
ComplementInv == (phase = "angle" /\ ~Congruent(N, b, e)) =>
    /\ InArc(N, a, b, e) # InArc(N, a, e, b)
    /\ InArcEq(N, a, b, e) = (InArc(N, a, b, e) \/ Congruent(N, a, e))
(* membership does not depend on the turn nor on the origin of angles *)
TurnInv == phase = "angle" => \A t \in {-2, 1} : \A s \in {0, 1, N - 1} :
    /\ InArc(N, a + t * N + s, b + s, e + s) = InArc(N, a, b, e)
    /\ InArcEq(N, a + s, b + s, e + t * N + s) = InArcEq(N, a, b, e)
EndsInv == phase = "angle" => ~InArc(N, e, b, e) /\ InArcEq(N, e, b, e) /\ InArcEq(N, b, b, e) /\ (InArc(N, b, b, e) = ~Congruent(N, b, e))
(* orientation: cyclic, antisymmetric, zero exactly when aligned with two equal points *)
CcwInv == phase = "ccw" =>
    /\ Cross(a, b, e) = Cross(b, e, a) /\ Cross(a, b, e) = 0 - Cross(b, a, e)
    /\ (a = b \/ b = e \/ a = e) => Cross(a, b, e) = 0
(* isometries keep orientation and squared lengths (right angles, exactly) *)
IsoInv == phase = "ccw" => \A k \in {0, 6, 12, 18} :
    LET I(p) == LET m == Image(<<2, 5>>, k, p) IN <<m[1] \div S, m[2] \div S>>
    IN  Cross(I(a), I(b), I(e)) = Cross(a, b, e)
(* fixed-point table: cos^2 + sin^2 = 1, up to rounding *)
TableInv == phase = "start" => \A k \in (-30)..30 :
    /\ AbsI(Mul(CosI(k), CosI(k)) + Mul(SinI(k), SinI(k)) - S) <= 2
    /\ AbsI(CosI(2 * k) - 2 * Mul(CosI(k), CosI(k)) + S) <= 4
    /\ CosI(k) = CosI(0 - k) /\ SinI(k) = CosI(6 - k)
=============================================================================
