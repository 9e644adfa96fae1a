------------------------------ MODULE AlignMC ------------------------------
(* Histories of one aligner with planes whose frames are rational: the frame  *)
(* built by Gram-Schmidt satisfies the relation the recordings are judged by, *)
(* and that relation fixes it.                                                *)
EXTENDS Align, TLC, Json
CONSTANTS Clouds, Planes, Tols, MaxOps
VARIABLES cloud, plane, tol, R, t, hist
vars == <<cloud, plane, tol, R, t, hist>>

(* -4..4 cannot be written in a .cfg *)
CloudSet == CASE Clouds = 1 -> {<<>>, <<<<1, 2, 2>>>>, <<<<0, 0, -1>>, <<3, 0, 0>>, <<-3, 1, 2>>>>, <<<<2, -2, 1>>, <<>>, <<4, -3, 0>>>>}
              [] OTHER -> UNION {[1..k -> {<<1, 2, 2>>, <<0, 0, -1>>, <<3, -4, 0>>, <<-1, 0, 5>>, <<>>}] : k \in 0..2}
PlaneSet == LET Ns == {<<0, 0, 1, 1>>, <<0, 0, -1, 1>>, <<0, 1, 0, 1>>, <<-1, 0, 0, 1>>, <<3, 4, 0, 5>>, <<-4, 3, 0, 5>>,
                       <<0, 3, 4, 5>>, <<0, -4, 3, 5>>, <<3, 0, -4, 5>>, <<-4, 0, 3, 5>>}
                Ds == IF Planes = 1 THEN {-5, 0, 3} ELSE -6..6
            IN  {[n |-> <<x[1], x[2], x[3]>>, m |-> x[4], d |-> d] : x \in Ns, d \in Ds}

(* Gram-Schmidt with unit p.m: exact for normals with a zero component *)
Ref(n) == IF 3 \in RefAxes(n) THEN <<0, 0, 1>> ELSE <<1, 0, 0>>
RECURSIVE ISqrt(_, _)
ISqrt(x, k) == IF k * k >= x THEN k ELSE ISqrt(x, k + 1)
(* e - (e.n) n / m^2, times m^2 *)
Rej(n, m) == LET e == Ref(n)
                 w == Dot3(e, n)
             IN  [i \in 1..3 |-> (m * m * e[i]) - (w * n[i])]
RowX(n, m) == LET v == Rej(n, m)
                  q == ISqrt(Dot3(v, v), 0)
              IN  [i \in 1..3 |-> (m * v[i]) \div q]
Frame(n, m) == LET x == RowX(n, m)
                   y == Cross3(n, x)
               IN  <<x, [i \in 1..3 |-> y[i] \div m], n>>
(* the translation in units of m * k: -R (sum of inliers, without its component along the normal) *)
Shift(p, tl, c) == LET s == SumIn(p, tl, c) IN <<-Dot3(Frame(p.n, p.m)[1], s), -Dot3(Frame(p.n, p.m)[2], s), 0>>

Id3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Init == /\ cloud = <<>> /\ plane = [n |-> <<0, 0, 1>>, m |-> 1, d |-> 0] /\ tol = 2
        /\ R = Id3 /\ t = <<0, 0, 0>> /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
SetCloud == \E c \in CloudSet : cloud' = c /\ Log([op |-> "cloud", c |-> c]) /\ UNCHANGED <<plane, tol, R, t>>
SetPlane == \E p \in PlaneSet : /\ plane' = (IF p.d > 0 THEN p ELSE Neg(p)) /\ Log([op |-> "plane", n |-> p.n, m |-> p.m, d |-> p.d])
                                /\ UNCHANGED <<cloud, tol, R, t>>
SetTol == \E x \in Tols : tol' = x /\ Log([op |-> "tol", tol |-> x]) /\ UNCHANGED <<cloud, plane, R, t>>
Compute == /\ R' = Frame(plane.n, plane.m) /\ t' = Shift(plane, tol, cloud) /\ Log([op |-> "compute"])
           /\ UNCHANGED <<cloud, plane, tol>>
Kind(i) == IF i > Len(hist) THEN "none" ELSE hist[i].op
(* one setter of each kind at most before each compute *)
Sets(k) == k \notin {hist[i].op : i \in {j \in DOMAIN hist : \A l \in j..Len(hist) : hist[l].op # "compute"}}
Next == /\ Len(hist) < MaxOps
        /\ \/ Sets("cloud") /\ SetCloud
           \/ Sets("plane") /\ SetPlane
           \/ Sets("tol") /\ SetTol
           \/ Compute
        /\ ((Len(hist') = MaxOps /\ hist'[MaxOps].op = "compute") => PrintT("@@" \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

(* the frame of the current plane satisfies the relation exactly, with unit m *)
FrameInv == IsFrame(plane, Frame(plane.n, plane.m), plane.m, 0)
(* the inlier centroid goes on the axis Z: k * (R q + t) with t = Shift / k *)
CentreInv == LET s == SumIn(plane, tol, cloud)
                 F == Frame(plane.n, plane.m)
                 h == Shift(plane, tol, cloud)
             IN  \A i \in 1..2 : Dot3(F[i], s) + h[i] = 0
(* heights: points of the plane have the same height, d below the origin *)
HeightInv == \A i \in DOMAIN cloud : cloud[i] # <<>> =>
                 (Dot3(plane.n, cloud[i]) + plane.d = 0) = (Dot3(Frame(plane.n, plane.m)[3], cloud[i]) = -plane.d)
(* the orientation does not depend on the sign of the coefficients *)
SignInv == plane.d # 0 => Oriented(plane) = Oriented(Neg(plane)) /\ Oriented(plane) = {plane}
(* rigid: inner products of all points are kept *)
RigidInv == \A i, j \in DOMAIN cloud : (cloud[i] # <<>> /\ cloud[j] # <<>>) =>
                LET F == Frame(plane.n, plane.m)
                    M(x) == [k \in 1..3 |-> Dot3(F[k], x)]
                IN  Dot3(M(cloud[i]), M(cloud[j])) = plane.m * plane.m * Dot3(cloud[i], cloud[j])
=============================================================================
