-------------------------------- MODULE Grid --------------------------------
(* rofl::Grid: an array of cells indexed by the tuples of an interval.  State:*)
(* the domain dom, the linear position pos[t] of every tuple (a bijection onto*)
(* 0..Size-1, chosen when the domain is set) and the cell contents val, a     *)
(* function on linear positions.  "?" is an unconstrained content (cells kept *)
(* from an earlier domain).                                                   *)
EXTENDS IntervalIndices
VARIABLES dom, pos, val, fresh
gvars == <<dom, pos, val, fresh>>

GridInit == dom = Mk(<<>>, <<>>) /\ pos = <<>> /\ val = <<>> /\ fresh = TRUE

(* linear positions, given in raster order of the tuples *)
Bijective(n, ps) == Len(ps) = n /\ {ps[i] : i \in 1..n} = 0..(n - 1)

SetDomain(a, ps, dflt) ==
    /\ Bijective(Size(a), ps)
    /\ dom' = a /\ pos' = ps /\ fresh' = FALSE
    /\ val' = [p \in 0..(Size(a) - 1) |-> IF fresh THEN dflt ELSE "?"]

PosOf(t) == pos[RasterPos(dom, t) + 1]

WritePos(p, v) == p \in DOMAIN val /\ val' = [val EXCEPT ![p] = v] /\ UNCHANGED <<dom, pos, fresh>>
WriteIdx(t, v) == Inside(dom, t) /\ WritePos(PosOf(t), v)
Fill(v) == val' = [p \in DOMAIN val |-> v] /\ UNCHANGED <<dom, pos, fresh>>
ReadsAs(p, v) == p \in DOMAIN val /\ (val[p] = "?" \/ val[p] = v)
=============================================================================
