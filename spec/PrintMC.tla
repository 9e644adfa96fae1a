------------------------------ MODULE PrintMC ------------------------------
(* All histories of at most MaxLen changes of a label set and a heap; the     *)
(* texts determine what they show.                                            *)
EXTENDS Print, Json
CONSTANTS MaxLen, Vals
VARIABLES hist
Menu == {[op |-> o, x |-> x] : o \in {"insert", "remove", "push"}, x \in Vals} \cup {[op |-> "popTop"], [op |-> "popBottom"]}
Init == Start /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E o \in Menu : Change(o) /\ hist' = Append(hist, o)
        /\ Len(hist') < MaxLen \/ PrintT("@@" \o ToJson(hist'))
Spec == Init /\ [][Next]_<<ls, hp, hist>>
(* the commas separate: as many as labels minus one; injectivity over the subsets of a universe with confusable texts *)
U == {0, 1, 2, 10, 12, 21, 101}
TextOf(S) == "{" \o Join(Texts(Sorted(S)), ", ") \o "}"
ASSUME \A A, B \in SUBSET U : TextOf(A) = TextOf(B) => A = B
Ends == {-1, 0, 1, 11}
ASSUME \A a, b, c, d \in Ends : \A m, n \in 1..2 :
    (IntervalText(<<a, b>>, <<m, n>>) = IntervalText(<<c, d>>, <<m, n>>) => a = c /\ b = d) /\ (ItemText(<<a, b>>, m) = ItemText(<<c, d>>, n) => a = c /\ b = d /\ m = n)
HeapSorted == \A i \in 1..(Len(hp) - 1) : hp[i] <= hp[i + 1]
Levels == \A p \in 0..62 : LevelOf(p) = CHOOSE k \in 0..6 : 2^k - 1 <= p /\ p < 2^(k + 1) - 1
=============================================================================
