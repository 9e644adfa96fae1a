--------------------------- MODULE MortonTreeTrace ---------------------------
(* Recorded histories of rofl::MortonTree (C16, C17).  Every event carries the *)
(* whole content of the tree (after); cfg: w (word width), f (floating point), *)
(* sc (coordinates are integers times 2^-sc, times 2^sc for integer trees).    *)
EXTENDS MortonTree, TraceBase
VARIABLES h, l
vars == <<seq, h, l>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ seq = <<>>
E == Hist[h].ev[l]
C == Hist[h].cfg
Scalar(v) == IF ~C.f THEN (IF v = 99 THEN C.w ELSE IF v = -1 THEN 0 ELSE v + 1 + C.sc)
             ELSE IF v = 99 THEN (IF C.w = 32 THEN 128 ELSE 1024)
             ELSE IF v = -1 THEN (IF C.w = 32 THEN -127 ELSE -1023) ELSE v - C.sc
Dist(a, b) == LET d == CHOOSE i \in DOMAIN a : \A j \in DOMAIN a : Lev(a[j], b[j]) <= Lev(a[i], b[i]) IN Scalar(Lev(a[d], b[d]))
Step ==
    /\ l <= Len(Hist[h].ev)
    /\ seq' = E.after
    /\ E.size = Len(E.after) /\ E.same
    /\ CASE E.op = "insert" -> Insert(E.items, E.reset)
         [] E.op = "copy"   -> Keep
         [] E.op = "sort"   -> Sort
         [] E.op = "find"   -> Sort /\ E.pos = LowerBound(seq', E.q)
         [] E.op = "level"  -> Sort /\ E.level = Dist(seq'[E.i].v, seq'[E.j].v)
         [] E.op = "box"    -> Sort /\ E.before /\ IsHits(seq', E.lo, E.hi, E.res)
         [] E.op = "range"  -> Sort /\ E.before /\ IsHits(seq', [d \in DOMAIN E.c |-> E.c[d] - E.r], [d \in DOMAIN E.c |-> E.c[d] + E.r], E.res)
         [] OTHER -> FALSE
    /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
