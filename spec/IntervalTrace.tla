---------------------------- MODULE IntervalTrace ----------------------------
(* Recorded histories of one rofl::IntervalIndices object (algebra, C02).     *)
EXTENDS IntervalIndices, TraceBase
VARIABLES a, h, l
vars == <<a, h, l>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ a = Mk([d \in 1..Hist[h].cfg.n |-> 0], [d \in 1..Hist[h].cfg.n |-> 0])
E == Hist[h].ev[l]

(* everything observable on an object denoting x *)
Obs(x, o) ==
    /\ o.empty = Empty(x) /\ o.size = BigSize(x)
    /\ \A i \in DOMAIN o.pts : o.inside[i] = Inside(x, o.pts[i])
    /\ o.min = x.min /\ o.first = x.min /\ o.dims = x.dim /\ o.dim1 = x.dim /\ o.max = MaxIdx(x) /\ o.last = LastIdx(x)
(* a derived object that only has to denote the same set *)
ObsSame(x, o) == IF Empty(x) THEN o.empty /\ o.size = <<>> /\ \A i \in DOMAIN o.pts : ~o.inside[i]
                 ELSE Obs(x, o)

Step ==
    /\ l <= Len(Hist[h].ev)
    /\ CASE E.op = "default"  -> a' = a
         [] E.op = "ctor"     -> a' = FromBounds(E.p, E.q)
         [] E.op = "bounds"   -> a' = FromBounds(E.p, E.q)
         [] E.op = "minmax"   -> a' = FromMinMax(E.p, E.q)
         [] E.op = "centered" -> a' = FromCentered(E.p, E.q)
         [] E.op = "translate" -> a' = Translate(a, E.p)
         [] E.op = "translate1" -> a' = Translate(a, [d \in Dims(a) |-> IF d = E.d + 1 THEN E.k ELSE 0])
         [] E.op = "clone"    -> a' = a /\ Obs(a, E.res)
         [] E.op = "intersect" -> a' = a /\ ObsSame(Intersect(a, Mk(E.p, E.q)), E.res)
                                         /\ ObsSame(Intersect(a, Mk(E.p, E.q)), E.rev)
                                         /\ ObsSame(a, E.self)
         [] E.op = "stacked"  -> a' = a /\ (Empty(a) \/ ObsSame(Stacked(a, E.d + 1, E.k), E.res))
         [] OTHER -> FALSE
    /\ Obs(a', E.obs)
    /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
