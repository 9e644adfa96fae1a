-------------------------- MODULE MinMaxHeapTrace --------------------------
(* Recorded histories of rofl::MinMaxHeap against MinMaxHeap.                 *)
(* event: [op, v, add, rem, obs] where add/rem are the identities that        *)
(* entered/left the iterated content during the operation.                    *)
EXTENDS MinMaxHeap, TraceBase
VARIABLES h, l
vars == <<items, order, h, l>>

Init == h \in 1..Len(Hist) /\ l = 1 /\ Create(Hist[h].cfg.order)
E == Hist[h].ev[l]

(* observation after the operation, in the state f *)
Obs(o, f, obs) ==
    /\ obs.size = Cardinality(DOMAIN f)
    /\ obs.empty = (f = <<>>)
    /\ f # <<>> =>
        /\ IsLeast(o, f, obs.top)
        /\ IsGreatest(o, f, obs.bottom)
        /\ obs.ntop \in DOMAIN f    /\ Rank(o, f[obs.ntop]) = SecondLow(o, f)
        /\ obs.nbottom \in DOMAIN f /\ Rank(o, f[obs.nbottom]) = SecondHigh(o, f)

Step ==
    /\ l <= Len(Hist[h].ev)
    /\ CASE E.op = "push"      -> Push(E.id, E.v) /\ E.add = <<E.id>> /\ E.rem = <<>>
         [] E.op = "popTop"    -> E.add = <<>> /\ Len(E.rem) = 1 /\ PopTop(E.rem[1])
         [] E.op = "popBottom" -> E.add = <<>> /\ Len(E.rem) = 1 /\ PopBottom(E.rem[1])
         [] OTHER -> FALSE
    /\ Obs(order', items', E.obs)
    /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
