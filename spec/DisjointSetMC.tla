---------------------------- MODULE DisjointSetMC ----------------------------
(* All histories of length MaxLen from Sets initial nodes; checks that blocks *)
(* are the connected components of the joins done.                            *)
EXTENDS DisjointSet, TLC, Json
CONSTANTS MaxLen, Sets
VARIABLES hist, edges
Init == n = Sets /\ rep = [x \in 0..(Sets - 1) |-> x] /\ hist = <<>> /\ edges = {}
Log(e) == hist' = Append(hist, e)
Next ==
    /\ Len(hist) < MaxLen
    /\ \/ \E x, y \in 0..(n - 1) : x < y /\ Join(x, y, IF rep[x] = rep[y] THEN n ELSE rep[x])
              /\ Log(<<"join", x, y>>) /\ edges' = edges \cup {{x, y}}
       \/ MakeSet(n) /\ Log(<<"make", 0, 0>>) /\ UNCHANGED edges
       \/ \E x \in {0, n - 1} : Join(x, n, n) /\ Log(<<"join", x, n>>) /\ UNCHANGED edges
    /\ (Len(hist') < MaxLen \/ PrintT("@@" \o ToJson(hist')))
Spec == Init /\ [][Next]_<<dvars, hist, edges>>

RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {e \in edges : e \cap S # {}} IN IF T = S THEN S ELSE Reach(T)
ComponentInv == \A x \in 0..(n - 1) : Block(x) = Reach({x})
RepInv == \A x \in 0..(n - 1) : rep[x] \in Block(x)
CountInv == Cardinality(Reps) = Cardinality({Block(x) : x \in 0..(n - 1)})
=============================================================================
