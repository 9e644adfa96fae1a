----------------------------- MODULE AlignTrace -----------------------------
(* Recorded histories of one PointCloudPlaneAligner; R, t is the transform    *)
(* read back after compute().                                                 *)
EXTENDS Align, TraceBase
VARIABLES cloud, pl, tol, R, t, h, l
vars == <<cloud, pl, tol, R, t, h, l>>
S == 16384
Init == /\ h \in 1..Len(Hist) /\ l = 1 /\ cloud = <<>> /\ pl = {[n |-> <<0, 0, 1>>, m |-> 1, d |-> 0]} /\ tol = Hist[h].cfg.tol0
        /\ R = <<<<S, 0, 0>>, <<0, S, 0>>, <<0, 0, S>>>> /\ t = <<0, 0, 0>>
E == Hist[h].ev[l]
Same == UNCHANGED <<cloud, pl, tol, R, t>>
Step ==
    /\ l <= Len(Hist[h].ev)
    /\ CASE E.op = "cloud" -> cloud' = E.c /\ UNCHANGED <<pl, tol, R, t>>
         [] E.op = "plane" -> (* coefficients read back: 0 if neither the given ones nor their opposite *)
                              /\ pl' = {p \in Oriented([n |-> E.n, m |-> E.m, d |-> E.d]) : p.n = [i \in 1..3 |-> E.sgn * E.n[i]] /\ p.d = E.sgn * E.d}
                              /\ pl' # {} /\ UNCHANGED <<cloud, tol, R, t>>
         [] E.op = "tol" -> tol' = E.tol /\ UNCHANGED <<cloud, pl, R, t>>
         [] E.op = "compute" -> /\ (E.affine = TRUE /\ \A p \in pl : IsAligned(p, tol, cloud, E.R, E.t, S, 3)) = TRUE
                                /\ R' = E.R /\ t' = E.t /\ UNCHANGED <<cloud, pl, tol>>
         [] E.op = "transform" -> /\ (Len(E.out) = Len(cloud) /\ \A i \in DOMAIN cloud : IsImage(R, t, cloud[i], E.out[i], S, 3)) = TRUE
                                  /\ E.extra = TRUE /\ Same
         [] OTHER -> FALSE
    /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
