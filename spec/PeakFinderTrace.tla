-------------------------- MODULE PeakFinderTrace --------------------------
(* Recorded detections of rofl::PeakFinderD (C05): one detector object,       *)
(* reconfigured and run any number of times.                                  *)
EXTENDS PeakFinder, TraceBase
VARIABLES dom, win, filt, vmin, h, l
vars == <<dom, win, filt, vmin, h, l>>
N == Hist[h].cfg.n
Zeros == [d \in 1..N |-> 0]
Init == h \in 1..Len(Hist) /\ l = 1 /\ dom = Mk(Zeros, Zeros) /\ win = Zeros /\ filt = FALSE /\ vmin = 0
E == Hist[h].ev[l]

Detected(ord, f, res) ==
    LET R == Range(res)
        V(t) == ValueAt(dom, f, t)
    IN  /\ Cardinality(R) = Len(res)                                   \* each once
        /\ \A i \in DOMAIN res : Inside(dom, res[i])
        /\ \A i \in 1..(Len(res) - 1) : ~Precedes(ord, V(res[i + 1]), V(res[i]))   \* best first
        /\ \A k \in 0..(Size(dom) - 1) :
              LET t == RasterAt(dom, k) IN (t \in R) = IsPeak(dom, win, f, ord, filt, vmin, t)

Step ==
    /\ l <= Len(Hist[h].ev)
    /\ CASE E.op = "domain"   -> dom' = FromMinMax(E.p, E.q) /\ UNCHANGED <<win, filt, vmin>>
         [] E.op = "domain1"  -> dom' = FromBounds(Zeros, E.q) /\ UNCHANGED <<win, filt, vmin>>
         [] E.op = "domainc"  -> dom' = FromCentered(E.p, E.q) /\ UNCHANGED <<win, filt, vmin>>
         [] E.op = "window"   -> win' = E.q /\ UNCHANGED <<dom, filt, vmin>>
         [] E.op = "filter"   -> filt' = E.on /\ vmin' = E.v /\ UNCHANGED <<dom, win>>
         [] E.op = "detect"   -> Detected(Hist[h].cfg.ord, E.f, E.res) /\ UNCHANGED <<dom, win, filt, vmin>>
         [] OTHER -> FALSE
    /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
