---------------------------- MODULE MinMaxHeapMC ----------------------------
(* All operation histories up to length MaxLen over values 1..MaxVal.         *)
EXTENDS MinMaxHeap, TLC, Json
CONSTANTS MaxLen, MaxVal
VARIABLE hist
vars == <<items, order, hist>>

Init == Create("less") /\ hist = <<>>
Emit(hs) == Len(hs) < MaxLen \/ PrintT("@@" \o ToJson(hs))
Log(e) == hist' = Append(hist, e)

Next ==
    /\ Len(hist) < MaxLen
    /\ \/ \E v \in 1..MaxVal : Push(Len(hist) + 1, v) /\ Log(<<"push", v>>)
       \/ /\ items # <<>>
          /\ PopTop(CHOOSE i \in DOMAIN items : IsLeast(order, items, i)) /\ Log(<<"popTop", 0>>)
       \/ /\ items # <<>>
          /\ PopBottom(CHOOSE i \in DOMAIN items : IsGreatest(order, items, i)) /\ Log(<<"popBottom", 0>>)
    /\ Emit(hist')
Spec == Init /\ [][Next]_vars

(* ---- what a client may rely on, as consequences of the specification ---- *)
Pushes == Cardinality({k \in DOMAIN hist : hist[k][1] = "push"})
Pops   == Len(hist) - Pushes
SizeInv == Cardinality(DOMAIN items) = Pushes - Pops
SortedSeq == LET S == {<<Rank(order, items[i]), i>> : i \in DOMAIN items}
                 le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
             IN  [k \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : le(y, x)}) = k]
(* extreme and next-extreme elements are those of the sorted sequence *)
OrderInv == items # <<>> =>
    LET s == SortedSeq  n == Len(s)
    IN  /\ IsLeast(order, items, s[1][2]) /\ IsGreatest(order, items, s[n][2])
        /\ SecondLow(order, items)  = (IF n = 1 THEN s[1][1] ELSE s[2][1])
        /\ SecondHigh(order, items) = (IF n = 1 THEN s[1][1] ELSE s[n - 1][1])
=============================================================================
