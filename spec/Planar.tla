------------------------------- MODULE Planar -------------------------------
(* Angles, arcs, orientation and isometries of the plane                      *)
(* (rofl/geometry/base_geometry2.h, normalize360/180 of functions.h).         *)
(* An angle is an integer number of units, N units in a turn.                 *)
EXTENDS Trig

Off(N, a, b) == (a - b) % N                       \* CCW from b to a
(* a is on the arc from b (included) to e (excluded / included), CCW *)
InArc(N, a, b, e)   == Off(N, a, b) < Off(N, e, b)
InArcEq(N, a, b, e) == Off(N, a, b) <= Off(N, e, b)
Congruent(N, a, b) == (a - b) % N = 0
(* rounding cannot decide comparisons of congruent but different numbers of turns *)
Decided(N, a, b, e) ==
    /\ Congruent(N, a, b) => a = b
    /\ Congruent(N, a, e) => a = e
    /\ Congruent(N, b, e) => b = e

Cross(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])

(* image of p under the isometry with translation t and rotation of k * 15 degrees, times S *)
Image(t, k, p) == <<CosI(k) * p[1] - SinI(k) * p[2] + S * t[1], SinI(k) * p[1] + CosI(k) * p[2] + S * t[2]>>
=============================================================================
