----------------------------- MODULE StampTrace -----------------------------
(* Recorded names (C32), as sequences of characters.  The clock shows e.t;    *)
(* an implementation reading a clock that the harness does not control would  *)
(* show the real time, from e.real to e.span seconds later.                   *)
EXTENDS Stamp, TraceBase
VARIABLES h, l
vars == <<h, l>>
Init == h \in 1..Len(Hist) /\ l = 1
E == Hist[h].ev[l]
Name(e, t) == e.prefix \o StampOf(e.zone, t) \o e.postfix
Ok(e) == e.op = "stamp" /\ (e.res = Name(e, e.t) \/ \E k \in 0..(e.span) : e.res = Name(e, Plus(e.real, k)))
Step == l <= Len(Hist[h].ev) /\ Ok(E) = TRUE /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
