----------------------------- MODULE GuardTrace -----------------------------
(* Recorded requests (C34).  ret: the request was answered; how: "refused"    *)
(* when the program ended with a diagnosis and a failure status (anything     *)
(* else, e.g. a memory error or a silent end, is not allowed).                *)
EXTENDS Guard, TraceBase
VARIABLES h, l
vars == <<up, hn, lut, pl, ln, dom, h, l>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ Start
E == Hist[h].ev[l]
Step == /\ l <= Len(Hist[h].ev)
        /\ E.op # "crash"
        /\ Request(E, Hist[h].cfg.dim, E.ret)
        /\ E.how = (IF E.ret THEN "answered" ELSE "refused")
        /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
