--------------------------- MODULE CorrGraphTrace ---------------------------
(* Recorded histories of one CorrespondenceGraphAssociation object (C21).     *)
EXTENDS CorrGraph, TraceBase
VARIABLES D, h, l
vars == <<D, h, l>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ D = [src |-> <<>>, dst |-> <<>>, tol |-> Hist[h].cfg.tol, dmin |-> 0]
E == Hist[h].ev[l]
(* recorded items count from 0 *)
AsSet(ps) == {<<p[1] + 1, p[2] + 1>> : p \in Range(ps)}
Associated(res) ==
    /\ \A i \in DOMAIN res : Cardinality(AsSet(res[i])) = Len(res[i])
    /\ {AsSet(res[i]) : i \in DOMAIN res} = Best(D)
    /\ Len(res) = Cardinality(Best(D))
Step ==
    /\ l <= Len(Hist[h].ev)
    /\ CASE E.op = "src" -> D' = [D EXCEPT !.src = E.m]
         [] E.op = "dst" -> D' = [D EXCEPT !.dst = E.m]
         [] E.op = "tol" -> D' = [D EXCEPT !.tol = E.v]
         [] E.op = "min" -> D' = [D EXCEPT !.dmin = E.v]
         [] E.op = "assoc" -> Associated(E.res) = TRUE /\ UNCHANGED D
         [] OTHER -> FALSE
    /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
