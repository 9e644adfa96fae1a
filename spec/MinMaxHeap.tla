----------------------------- MODULE MinMaxHeap -----------------------------
(* Double-ended priority queue, the abstract object behind rofl::MinMaxHeap.  *)
(* State: the elements currently stored, as a function from element identity  *)
(* to element value.  Values are compared only through Rank, so elements of   *)
(* equal rank are ties (a strict weak ordering, not necessarily total).       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

VARIABLES items,    \* [identity -> value]
          order     \* name of the comparator in use

Rank(o, v) == CASE o = "less"    -> v
                [] o = "greater" -> 0 - v
                [] o = "mod5"    -> v % 5
                [] o = "abs"     -> IF v < 0 THEN 0 - v ELSE v
                [] o = "flat"    -> 0

Ranks(o, f) == {Rank(o, f[i]) : i \in DOMAIN f}
MinOf(S) == FoldSet(LAMBDA a, b : IF a < b THEN a ELSE b, CHOOSE x \in S : TRUE, S)
MaxOf(S) == FoldSet(LAMBDA a, b : IF a > b THEN a ELSE b, CHOOSE x \in S : TRUE, S)
Count(o, f, r) == Cardinality({i \in DOMAIN f : Rank(o, f[i]) = r})

IsLeast(o, f, i)    == i \in DOMAIN f /\ Rank(o, f[i]) = MinOf(Ranks(o, f))
IsGreatest(o, f, i) == i \in DOMAIN f /\ Rank(o, f[i]) = MaxOf(Ranks(o, f))

(* rank of the second element in increasing / decreasing order *)
SecondLow(o, f) ==
    LET R == Ranks(o, f)  m == MinOf(R)
    IN  IF Count(o, f, m) > 1 \/ R = {m} THEN m ELSE MinOf(R \ {m})
SecondHigh(o, f) ==
    LET R == Ranks(o, f)  m == MaxOf(R)
    IN  IF Count(o, f, m) > 1 \/ R = {m} THEN m ELSE MaxOf(R \ {m})

Remove(f, i) == [j \in (DOMAIN f) \ {i} |-> f[j]]

Create(o) == items = <<>> /\ order = o

Push(i, v) ==
    /\ i \notin DOMAIN items
    /\ items' = [j \in DOMAIN items \cup {i} |-> IF j = i THEN v ELSE items[j]]
    /\ UNCHANGED order

PopTop(i) ==
    /\ items # <<>> /\ IsLeast(order, items, i)
    /\ items' = Remove(items, i)
    /\ UNCHANGED order

PopBottom(i) ==
    /\ items # <<>> /\ IsGreatest(order, items, i)
    /\ items' = Remove(items, i)
    /\ UNCHANGED order
=============================================================================
