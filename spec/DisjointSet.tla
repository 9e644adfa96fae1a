----------------------------- MODULE DisjointSet -----------------------------
(* rofl::DisjointSet: a partition of the nodes 0..n-1 with a representative   *)
(* per block.  rep maps every node to the representative of its block, so two *)
(* nodes are in the same block iff they have the same rep.                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES n, rep
dvars == <<n, rep>>

Valid(x) == x \in 0..(n - 1)
Block(x) == {y \in 0..(n - 1) : rep[y] = rep[x]}
Reps == {rep[x] : x \in 0..(n - 1)}

InitSets(k) == n' = k /\ rep' = [x \in 0..(k - 1) |-> x]
MakeSet(res) == res = n /\ n' = n + 1 /\ rep' = [x \in 0..n |-> IF x = n THEN n ELSE rep[x]]
Find(x, res) == res = (IF Valid(x) THEN rep[x] ELSE n) /\ UNCHANGED dvars
(* the representative of the merged block may be any of its members *)
Join(x, y, res) ==
    IF ~Valid(x) \/ ~Valid(y) \/ (Valid(x) /\ Valid(y) /\ rep[x] = rep[y])
    THEN res = n /\ UNCHANGED dvars
    ELSE /\ res \in Block(x) \cup Block(y)
         /\ rep' = [z \in 0..(n - 1) |-> IF rep[z] \in {rep[x], rep[y]} THEN res ELSE rep[z]]
         /\ UNCHANGED n
=============================================================================
