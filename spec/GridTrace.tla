------------------------------ MODULE GridTrace ------------------------------
(* Recorded histories of rofl::Grid objects (C04).                            *)
EXTENDS Grid, TraceBase
VARIABLES h, l
vars == <<dom, pos, val, fresh, h, l>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ GridInit
E == Hist[h].ev[l]

DomOf(e) == CASE e.form \in {"ctor", "bounds"}   -> FromBounds(e.p, e.q)
              [] e.form \in {"ctor1", "bounds1"} -> FromBounds([d \in DOMAIN e.q |-> 0], e.q)
              [] e.form = "minmax"               -> FromMinMax(e.p, e.q)
              [] e.form = "center"               -> FromCentered(e.p, e.q)

(* getPos of all tuples in raster order, and getIndices as its inverse; size and dimensions *)
DomObs(e) ==
    LET a == DomOf(e) IN
    /\ e.size = Size(a) /\ e.dims = a.dim
    /\ \A i \in 1..Size(a) : e.inv[i] = RasterAt(a, i - 1)
    /\ \A i \in DOMAIN e.pts : e.inside[i] = Inside(a, e.pts[i])

(* a large domain on a sample of its cells: distinct positions in range, their inverses, one
   value written to each (its number) and read back after all writes *)
Big(e) ==
    LET a == DomOf(e) IN
    /\ e.size = Size(a) /\ e.dims = a.dim
    /\ \A i \in DOMAIN e.pts : e.inside[i] = Inside(a, e.pts[i])
    /\ \A i \in DOMAIN e.ts : e.map[i] >= 0 /\ e.map[i] < Size(a) /\ e.inv[i] = e.ts[i] /\ e.got[i] = ToString(i)
    /\ Cardinality({e.map[i] : i \in DOMAIN e.map}) = Len(e.ts)

(* content read in raster order through one access form; rpos: by linear position 0.. *)
Dump(e) ==
    /\ Len(e.vals) = Size(dom)
    /\ \A i \in 1..Size(dom) :
        LET p == IF e.form = "pos" THEN i - 1 ELSE pos[i] IN ReadsAs(p, e.vals[i])

Step ==
    /\ l <= Len(Hist[h].ev)
    /\ CASE E.op = "dom"  -> SetDomain(DomOf(E), E.map, E.dflt) /\ DomObs(E)
         [] E.op = "w"    -> WriteIdx(E.t, E.v) /\ (E.form = "pos" => E.pos = PosOf(E.t))
         [] E.op = "r"    -> ReadsAs(PosOf(E.t), E.v) /\ UNCHANGED gvars
         [] E.op = "fill" -> Fill(E.v)
         [] E.op = "big" -> Big(E) /\ UNCHANGED gvars
         [] E.op = "copy" -> UNCHANGED gvars
         [] E.op = "dump" -> Dump(E) /\ UNCHANGED gvars
         [] OTHER -> FALSE
    /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
