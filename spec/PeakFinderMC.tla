---------------------------- MODULE PeakFinderMC ----------------------------
(* The sliding-window algorithm of PeakFinderD as a transition system: the    *)
(* window moves in boustrophedon order over the domain, novel cells enter a   *)
(* priority queue (a bag of cells, ties broken nondeterministically), cells   *)
(* that left the window are removed lazily, only when they reach the top.     *)
(* Checked: the result is exactly Peaks, for every map over small domains.    *)
EXTENDS PeakFinder, TLC, Json
CONSTANTS Doms, Wins, Vals
VARIABLES a, w, f, k, queue, found, pc
vars == <<a, w, f, k, queue, found, pc>>
o == "greater"

Cur == BoustAt(a, k)
Val(t) == ValueAt(a, f, t)
Count(q, t) == IF t \in DOMAIN q THEN q[t] ELSE 0
AddAll(q, S) == [t \in DOMAIN q \cup S |-> Count(q, t) + (IF t \in S THEN 1 ELSE 0)]
Pop(q, t) == IF q[t] = 1 THEN [s \in DOMAIN q \ {t} |-> q[s]] ELSE [q EXCEPT ![t] = @ - 1]
Tops == {t \in DOMAIN queue : \A s \in DOMAIN queue : ~Precedes(o, Val(s), Val(t))}
InWin(t) == Inside(FromCentered(Cur, w), t)

Init == /\ a \in Doms /\ w \in {v \in Wins : Len(v) = Len(a.min)}
        /\ f \in [1..Size(a) -> Vals]
        /\ k = 0 /\ queue = AddAll(<<>>, Den(Window(a, w, BoustAt(a, 0)))) /\ found = {} /\ pc = "prune"
        /\ PrintT("@@" \o ToJson([min |-> a.min, dim |-> a.dim, w |-> w, f |-> f]))

Prune == /\ pc = "prune"
         /\ \E t \in Tops : (t = Cur \/ ~InWin(t)) /\ queue' = Pop(queue, t)
         /\ UNCHANGED <<a, w, f, k, found, pc>>
Examine ==
    /\ pc = "prune"
    /\ \/ /\ queue = <<>> /\ found' = found \cup {Cur}
       \/ \E t \in Tops : /\ t # Cur /\ InWin(t)
                          /\ found' = IF Precedes(o, Val(Cur), Val(t)) THEN found \cup {Cur} ELSE found
    /\ queue' = IF Cur \in DOMAIN queue THEN queue ELSE AddAll(queue, {Cur})
    /\ pc' = "move" /\ UNCHANGED <<a, w, f, k>>
Move ==
    /\ pc = "move"
    /\ IF k + 1 = Size(a) THEN pc' = "end" /\ UNCHANGED <<k, queue>>
       ELSE LET nxt == BoustAt(a, k + 1)
                e == CHOOSE d \in Dims(a) : nxt[d] # Cur[d]
                novel == Intersect(Stacked(FromCentered(Cur, w), e, nxt[e] - Cur[e]), a)
            IN  k' = k + 1 /\ queue' = AddAll(queue, Den(novel)) /\ pc' = "prune"
    /\ UNCHANGED <<a, w, f, found>>
Next == Prune \/ Examine \/ Move
Spec == Init /\ [][Next]_vars

ExactInv == pc = "end" => found = Peaks(a, w, f, o, FALSE, 0)
WindowInv == Den(Window(a, w, Cur)) \subseteq DOMAIN queue \cup {Cur}
=============================================================================
