---------------------------- MODULE MortonTreeMC ----------------------------
(* Histories of insertions, sorting and lookups over few points: bounds found  *)
(* by binary search are those of the bag, and a box always lies between its    *)
(* corners in the sorted sequence.  Histories are emitted for replay.          *)
EXTENDS MortonTree, TLC, Json
CONSTANTS Points, Boxes, MaxOps
VARIABLES ordered, hist
vars == <<seq, ordered, hist>>
QPoints == {<<-2, 1>>, <<-1, -1>>, <<0, 0>>, <<1, 3>>, <<2, 1>>}
QBoxes == {<<<<-2, -1>>, <<1, 1>>>>, <<<<0, 0>>, <<2, 3>>>>, <<<<1, 1>>, <<0, 3>>>>, <<<<-4, -4>>, <<3, 3>>>>}
Init == seq = <<>> /\ ordered = TRUE /\ hist = <<>>
RECURSIVE Ins(_, _)
Ins(s, x) == IF s = <<>> THEN <<x>> ELSE IF MLess(x.v, s[1].v) THEN <<x>> \o s ELSE <<s[1]>> \o Ins(Tail(s), x)
RECURSIVE Srt(_)
Srt(s) == IF s = <<>> THEN s ELSE Ins(Srt(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
Do(o) == hist' = Append(hist, o)
DoInsert == \E p \in Points, r \in BOOLEAN :
    /\ seq' = seq \o WithIds(seq, <<[v |-> p, id |-> 7]>>, r) /\ ordered' = FALSE
    /\ Do([op |-> "insert", via |-> "one", items |-> <<[v |-> p, id |-> 7]>>, reset |-> r])
DoFind == \E q \in Points : seq' = Srt(seq) /\ ordered' = TRUE /\ Do([op |-> "find", q |-> q])
DoBox == \E b \in Boxes : seq' = Srt(seq) /\ ordered' = TRUE /\ Do([op |-> "box", lo |-> b[1], hi |-> b[2]])
Next == /\ Len(hist) < MaxOps
        /\ DoInsert \/ DoFind \/ DoBox
        /\ (Len(hist') = MaxOps => PrintT("@@" \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
OrderInv == ordered => Sorted(seq)
(* lower and upper bound by position: the sorted sequence is cut by every query *)
CutInv == ordered => \A q \in Points : \A i \in DOMAIN seq : MLess(seq[i].v, q) = (i <= LowerBound(seq, q))
(* the items of a box are between the bounds of its corners *)
BoxInv == ordered => \A b \in Boxes : \A i \in Hits(seq, b[1], b[2]) :
    i > LowerBound(seq, b[1]) /\ ~MLess(b[2], seq[i].v)
=============================================================================
