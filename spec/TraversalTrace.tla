--------------------------- MODULE TraversalTrace ---------------------------
(* Recorded iterations over rofl::IntervalIndices (C03): full sweeps and      *)
(* walks of an iterator with position p (0..Size).                            *)
EXTENDS IntervalIndices, TraceBase
VARIABLES p, h, l
vars == <<p, h, l>>
A == Mk(Hist[h].cfg.min, Hist[h].cfg.dim)
At(ord, k) == IF ord = "raster" THEN RasterAt(A, k) ELSE BoustAt(A, k)
Init == h \in 1..Len(Hist) /\ l = 1 /\ p = 0
E == Hist[h].ev[l]
N == Size(A)

(* sweep from begin to end, with begin = end tested before each step *)
FullSweep(ord, s)  == Len(s) = N /\ \A k \in 1..N : s[k] = At(ord, k - 1)
BackSweep(ord, s)  == Len(s) = N /\ \A k \in 1..N : s[k] = At(ord, N - k)

Walk(ord) ==
    /\ CASE E.op = "start"   -> p' = 0
         [] E.op = "fromend" -> p' = N
         [] E.op = "preinc"  -> p' = p + 1
         [] E.op = "predec"  -> p' = p - 1
         [] E.op = "postinc" -> p' = p + 1 /\ E.old = At(ord, p)
         [] E.op = "postdec" -> p' = p - 1 /\ (p = N \/ E.old = At(ord, p))
         [] OTHER -> FALSE
    /\ E.eqbegin = (p' = 0) /\ E.eqend = (p' = N) /\ E.nebegin = (p' # 0) /\ E.neend = (p' # N)
    /\ (0 <= p' /\ p' < N) => /\ E.at = At(ord, p') /\ E.arrow = At(ord, p') /\ E.copy = At(ord, p')

Step ==
    /\ l <= Len(Hist[h].ev)
    /\ CASE E.op = "sweep" -> FullSweep(E.ord, E.seq) /\ p' = p
         [] E.op = "back"  -> BackSweep(E.ord, E.seq) /\ p' = p
         [] E.op = "crash" -> FALSE
         [] OTHER -> Walk(E.ord)
    /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
