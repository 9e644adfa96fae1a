------------------------------ MODULE BoxTrace ------------------------------
(* Recorded calls (C27, C29).  cfg.dim; the half sides are set by "dim".      *)
EXTENDS Box, TraceBase
VARIABLES h, l, hs
vars == <<h, l, hs>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ hs = [d \in 1..Hist[h].cfg.dim |-> 0]
E == Hist[h].ev[l]
Ok(e) ==
    CASE e.op = "dim" -> TRUE
      [] e.op = "near" -> Nearest(hs, e.q, e.res)
      [] e.op = "fit" -> /\ \A i \in 1..Len(e.c) : Nearest(hs, ApplyInv(e.r0, e.k, e.t0, e.c[i]), e.m[i])
                         /\ Procrustes(e.R, e.t, e.m, e.c) /\ e.affine
      [] e.op = "init" -> IF Len(e.c) < 2 THEN e.identity ELSE InitOk(e.R, e.t, hs, e.c, e.r0, e.k)
      [] OTHER -> FALSE
Step == /\ l <= Len(Hist[h].ev)
        /\ Ok(E) = TRUE
        /\ hs' = IF E.op = "dim" THEN E.hs ELSE hs
        /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
