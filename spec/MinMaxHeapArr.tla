--------------------------- MODULE MinMaxHeapArr ---------------------------
(* The implicit-tree algorithm of a min-max heap as operators on sequences    *)
(* (1-based: children of i are 2i and 2i+1, even levels minimal, odd levels   *)
(* maximal in their subtree).  MinMaxHeapArrMC shows that every operation     *)
(* keeps the tree invariant and refines MinMaxHeap.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Level(_)
Level(i) == IF i = 1 THEN 0 ELSE 1 + Level(i \div 2)
OnMin(i) == Level(i) % 2 = 0
RECURSIVE Under(_, _)                                  \* i is in the subtree of r
Under(i, r) == i = r \/ (i > r /\ Under(i \div 2, r))
HeapInv(a) == \A r, i \in DOMAIN a : Under(i, r) => IF OnMin(r) THEN a[r] <= a[i] ELSE a[r] >= a[i]

Swap(a, i, j) == [k \in DOMAIN a |-> IF k = i THEN a[j] ELSE IF k = j THEN a[i] ELSE a[k]]
(* towards the root along levels of one kind; s = 1 for minimal, -1 for maximal levels *)
RECURSIVE Climb(_, _, _)
Climb(a, i, s) == LET g == i \div 4 IN IF g >= 1 /\ s * a[i] < s * a[g] THEN Climb(TLCEval(Swap(a, i, g)), g, s) ELSE a
Sift(a, i) ==
    LET s == IF OnMin(i) THEN 1 ELSE -1
        p == i \div 2
    IN  IF p >= 1 /\ s * a[i] > s * a[p] THEN Climb(TLCEval(Swap(a, i, p)), p, 0 - s) ELSE Climb(a, i, s)
PushA(a, v) == Sift(Append(a, v), Len(a) + 1)

(* best (in the sense of s) of the positions S of a *)
Best(a, S, s) == CHOOSE i \in S : \A j \in S : s * a[i] < s * a[j] \/ (a[i] = a[j] /\ i <= j)
Kids(a, i) == {2 * i, 2 * i + 1} \cap DOMAIN a
Grands(a, i) == (4 * i)..(4 * i + 3) \cap DOMAIN a
RECURSIVE Down(_, _, _)
Down(a, i, s) ==
    IF Kids(a, i) = {} THEN a
    ELSE LET m == Best(a, Kids(a, i) \cup Grands(a, i), s) IN
         IF ~(s * a[m] < s * a[i]) THEN a
         ELSE LET b == TLCEval(Swap(a, m, i)) IN
              IF m \in Kids(a, i) THEN b
              ELSE LET p == m \div 2
                       c == TLCEval(IF s * b[m] > s * b[p] THEN Swap(b, m, p) ELSE b)
                   IN  Down(c, m, s)
Cut(a, i) == LET n == Len(a) IN SubSeq(Swap(a, i, n), 1, n - 1)
MaxPos(a) == IF Len(a) = 1 THEN 1 ELSE Best(a, Kids(a, 1), -1)
PopTopA(a) == LET c == Cut(a, 1) IN IF c = <<>> THEN c ELSE Down(c, 1, 1)
PopBottomA(a) == LET m == MaxPos(a)  c == Cut(a, m) IN IF m > Len(c) THEN c ELSE Down(c, m, -1)
(* where the second extremes are *)
SecondLowA(a) == IF Len(a) = 1 THEN a[1] ELSE a[Best(a, Kids(a, 1) \cup Grands(a, 1), 1)]
SecondHighA(a) == IF Len(a) < 3 THEN a[1]
                  ELSE LET m == MaxPos(a) IN a[Best(a, (Kids(a, 1) \ {m}) \cup Kids(a, m) \cup Grands(a, m), -1)]
=============================================================================
