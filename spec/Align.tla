------------------------------- MODULE Align -------------------------------
(* Frame of rofl::PointCloudPlaneAligner.  A plane has an integer normal n    *)
(* whose norm m is an integer too (Pythagorean quadruples) and an offset d:   *)
(* n . p + d = 0, coordinates and distances in integer units.  A point that   *)
(* is not a number is the empty sequence.  A motion has rows R[1..3] (unit S) *)
(* and a translation t (unit S per length unit).                              *)
EXTENDS Integers, Sequences, FiniteSets

AbsI(x) == IF x < 0 THEN -x ELSE x
Dot3(a, b) == (a[1] * b[1]) + (a[2] * b[2]) + (a[3] * b[3])
Norm1(a) == AbsI(a[1]) + AbsI(a[2]) + AbsI(a[3])
Cross3(a, b) == <<(a[2] * b[3]) - (a[3] * b[2]), (a[3] * b[1]) - (a[1] * b[3]), (a[1] * b[2]) - (a[2] * b[1])>>
Neg(p) == [n |-> [i \in 1..3 |-> -p.n[i]], m |-> p.m, d |-> -p.d]
Near(x, y, e) == AbsI(x - y) <= e

(* the plane looks toward the origin; a plane through the origin may do so either way *)
Oriented(p) == IF p.d > 0 THEN {p} ELSE IF p.d < 0 THEN {Neg(p)} ELSE {p, Neg(p)}

(* points strictly closer than tol to the plane; tol in hundredths of a unit *)
Inlier(p, tol, q) == q # <<>> /\ 100 * AbsI(Dot3(p.n, q) + p.d) < tol * p.m
Inliers(p, tol, c) == {i \in DOMAIN c : Inlier(p, tol, c[i])}
RECURSIVE SumOver(_, _, _)
SumOver(c, I, k) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN c[i][k] + SumOver(c, I \ {i}, k)
SumIn(p, tol, c) == LET I == Inliers(p, tol, c) IN [k \in 1..3 |-> SumOver(c, I, k)]

(* axes that axis X may be the projection of: Z, or X when z is the largest component of the normal *)
RefAxes(n) == (IF AbsI(n[3]) <= AbsI(n[1]) \/ AbsI(n[3]) <= AbsI(n[2]) THEN {3} ELSE {})
              \union (IF AbsI(n[3]) >= AbsI(n[1]) /\ AbsI(n[3]) >= AbsI(n[2]) THEN {1} ELSE {})

(* R is orthonormal and right-handed, its third row the normal, its second row orthogonal to the reference axis *)
IsRotation(R, S, e) ==
    /\ \A i, j \in 1..3 : Near(Dot3(R[i], R[j]), IF i = j THEN S * S ELSE 0, 4 * e * S)
    /\ LET c == Cross3(R[1], R[2]) IN \A k \in 1..3 : Near(c[k], S * R[3][k], 4 * e * S)
IsFrame(p, R, S, e) ==
    /\ IsRotation(R, S, e)
    /\ \A k \in 1..3 : Near(R[3][k] * p.m, S * p.n[k], e * p.m)
    /\ \E a \in RefAxes(p.n) : Near(R[2][a], 0, e) /\ R[1][a] > 0

(* the inlier centroid is on the axis Z of the frame, heights along the normal are kept *)
IsCentred(p, tol, c, R, t, S, e) ==
    LET k == Cardinality(Inliers(p, tol, c))
        s == SumIn(p, tol, c)
    IN  IF k = 0 THEN \A i \in 1..3 : Near(t[i], 0, 0)
        ELSE /\ \A i \in 1..2 : Near((k * t[i]) + Dot3(R[i], s), 0, e * (Norm1(s) + (16 * k)))
             /\ Near(t[3], 0, 16 * e)
IsAligned(p, tol, c, R, t, S, e) == IsFrame(p, R, S, e) /\ IsCentred(p, tol, c, R, t, S, e)

(* q is the image of p *)
IsImage(R, t, x, y, S, e) == IF x = <<>> THEN y = <<>>
                             ELSE y # <<>> /\ \A i \in 1..3 : Near(y[i], Dot3(R[i], x) + t[i], e * (Norm1(x) + 16))
=============================================================================
