------------------------------- MODULE BoxMC -------------------------------
(* All boxes and query points of a small lattice against brute force, and all *)
(* right-angle motions of small clouds of surface points.                     *)
EXTENDS Box, Json
CONSTANTS D, H, Q
VARIABLES hs, q, R, C, phase
vars == <<hs, q, R, C, phase>>
Pts(m) == [1..D -> (0 - m)..m]
Cells(b) == {p \in Pts(H) : OnSurface(b, p)}
E(k, s) == [j \in 1..D |-> IF j = k THEN s ELSE 0]
Perms == {a \in [1..D -> 1..D] : \A i, j \in 1..D : i # j => a[i] # a[j]}
Mats == {[i \in 1..D |-> E(a[i], s[i])] : a \in Perms, s \in [1..D -> {-1, 1}]}
IntDet(M) == IF D = 2 THEN M[1][1] * M[2][2] - M[1][2] * M[2][1]
             ELSE M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2]) - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1])
                  + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
Rots == {M \in Mats : IntDet(M) = 1}
T0 == [d \in 1..D |-> d + 1]
Flip(p, k) == [d \in 1..D |-> IF d = k THEN 0 - p[d] ELSE p[d]]
Init == phase = "start" /\ hs = <<>> /\ q = <<>> /\ R = <<>> /\ C = <<>>
Next == \/ /\ phase = "start" /\ phase' = "box" /\ hs' \in [1..D -> 0..H] /\ UNCHANGED <<q, R, C>>
        \/ /\ phase = "box" /\ phase' = "query" /\ q' \in Pts(Q) /\ UNCHANGED <<hs, R, C>>
           /\ PrintT("@@" \o ToJson([hs |-> hs, q |-> q']))
        \/ /\ phase = "box" /\ phase' = "fit" /\ R' \in Rots
           /\ \E p1 \in Cells(hs) : \E p2 \in IF D = 2 THEN Cells(hs) ELSE {Flip(p1, d) : d \in 1..D} :
                 C' = <<p1, p2, [d \in 1..D |-> hs[d]], [d \in 1..D |-> IF d = 1 THEN hs[d] ELSE 0 - hs[d]]>>
           /\ UNCHANGED <<hs, q>>
Spec == Init /\ [][Next]_vars
(* SurfDist2 is the least squared distance from the points of the surface *)
NearInv == phase = "query" =>
    /\ \A p \in Cells(hs) : Dist2(q, p) >= SurfDist2(hs, q)
    /\ \E p \in Cells(hs) : Nearest(hs, q, p)
(* undoing a motion; a motion maps its own model onto the cloud, is optimal, and better than all others *)
FixR == [i \in 1..D |-> [j \in 1..D |-> W * R[i][j]]]
ST == [d \in 1..D |-> W * T0[d]]
Cloud == TLCEval([i \in 1..Len(C) |-> TLCEval(Apply(R, 1, T0, C[i]))])
FitInv == phase = "fit" =>
    /\ \A i \in 1..Len(C) : ApplyInv(R, 1, T0, Cloud[i]) = C[i]
    /\ Procrustes(FixR, ST, C, Cloud)
    /\ \A Z \in Rots : CostLeq(FixR, Z, Cross(C, Cloud))
=============================================================================
