----------------------------- MODULE PeakFinder -----------------------------
(* rofl::PeakFinderD: the cells of a domain that strictly dominate every      *)
(* other cell of the domain inside a window centred on them.                  *)
EXTENDS IntervalIndices

Precedes(o, x, y) == IF o = "less" THEN x < y ELSE x > y

(* f: values of the domain's cells in raster order *)
ValueAt(a, f, t) == f[RasterPos(a, t) + 1]
Window(a, w, t) == Intersect(a, FromCentered(t, w))

IsPeak(a, w, f, o, filt, vmin, t) ==
    /\ \A s \in Den(Window(a, w, t)) : s = t \/ Precedes(o, ValueAt(a, f, t), ValueAt(a, f, s))
    /\ filt => Precedes(o, ValueAt(a, f, t), vmin)

Peaks(a, w, f, o, filt, vmin) == {t \in Den(a) : IsPeak(a, w, f, o, filt, vmin, t)}
=============================================================================
