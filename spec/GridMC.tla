------------------------------- MODULE GridMC -------------------------------
(* All write/fill histories of length MaxLen on small domains.                *)
EXTENDS Grid, TLC, Json
CONSTANTS MaxLen
VARIABLES hist
Doms == {Mk(<<-1>>, <<3>>), Mk(<<2, -1>>, <<2, 2>>), Mk(<<0, 5>>, <<1, 2>>), Mk(<<1, 1, -2>>, <<2, 1, 2>>)}
Vals == {"1", "2"}
Init == GridInit /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Raster(a) == [i \in 1..Size(a) |-> i - 1]
Next ==
    \/ /\ hist = <<>>
       /\ \E a \in Doms : SetDomain(a, Raster(a), "0") /\ Log([op |-> "dom", min |-> a.min, dim |-> a.dim])
    \/ /\ hist # <<>> /\ Len(hist) < MaxLen
       /\ \/ \E t \in Den(dom), v \in Vals : WriteIdx(t, v) /\ Log([op |-> "w", t |-> t, v |-> v])
          \/ Fill("2") /\ Log([op |-> "fill", v |-> "2"])
       /\ (Len(hist') < MaxLen \/ PrintT("@@" \o ToJson(hist')))
Spec == Init /\ [][Next]_<<gvars, hist>>

(* last-write semantics, directly on the history *)
LastInv == hist # <<>> => \A t \in Den(dom) :
    LET W == {k \in 2..Len(hist) : hist[k].op = "fill" \/ (hist[k].op = "w" /\ hist[k].t = t)}
        last == CHOOSE k \in W : \A j \in W : j <= k
    IN  val[PosOf(t)] = (IF W = {} THEN "0" ELSE hist[last].v)
BijInv == hist # <<>> => \A s, t \in Den(dom) : s # t => PosOf(s) # PosOf(t)
=============================================================================
