----------------------------- MODULE CorrGraph -----------------------------
(* rofl::CorrespondenceGraphAssociation: source/destination pairs that agree  *)
(* on all mutual distances.  D.src, D.dst: symmetric distance matrices.       *)
EXTENDS Integers, Sequences, FiniteSets

AbsC(x) == IF x < 0 THEN 0 - x ELSE x
Nodes(D) == (1..Len(D.src)) \X (1..Len(D.dst))
Compatible(D, a, b) ==
    /\ a[1] # b[1] /\ a[2] # b[2]
    /\ D.src[a[1]][b[1]] > D.dmin
    /\ AbsC(D.src[a[1]][b[1]] - D.dst[a[2]][b[2]]) < D.tol
Consistent(D, A) == \A a, b \in A : a = b \/ Compatible(D, a, b)

(* consistent sets, grown one source item at a time *)
RECURSIVE GrowC(_, _, _)
GrowC(D, s, sets) ==
    IF s > Len(D.src) THEN sets
    ELSE GrowC(D, s + 1, sets \cup UNION {{A \cup {<<s, d>>} : d \in {e \in 1..Len(D.dst) : \A a \in A : Compatible(D, a, <<s, e>>)}} : A \in sets})
AllConsistent(D) == GrowC(D, 1, {{}})
MaxSize(C) == CHOOSE n \in {Cardinality(A) : A \in C} : \A A \in C : Cardinality(A) <= n
(* all largest non-empty consistent sets *)
Best(D) == LET C == AllConsistent(D)
               n == MaxSize(C)
           IN  IF n = 0 THEN {} ELSE {A \in C : Cardinality(A) = n}
=============================================================================
