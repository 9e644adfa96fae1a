------------------------------- MODULE DirMC -------------------------------
(* All histories of at most MaxOps operations on two directories.             *)
EXTENDS Dir, TLC, Json
CONSTANTS Names, Kinds, MaxOps
VARIABLES fs, list, hist
vars == <<fs, list, hist>>
Dirs == {1, 2}
Id(d, n) == (d - 1) * Cardinality(Names) + n
Init == fs = << >> /\ list = <<>> /\ hist = <<>>
RECURSIVE Merge(_, _)
(* insertion of a set of ids in a sorted sequence *)
Insert(s, v) == LET k == Cardinality({i \in DOMAIN s : s[i] <= v}) IN SubSeq(s, 1, k) \o <<v>> \o SubSeq(s, k + 1, Len(s))
Merge(s, A) == IF A = {} THEN s ELSE LET v == CHOOSE x \in A : TRUE IN Merge(Insert(s, v), A \ {v})
Next == /\ Len(hist) < MaxOps
        /\ \/ \E d \in Dirs, n \in Names, k \in Kinds :
                 <<d, n>> \notin DOMAIN fs /\ fs' = Make(fs, d, n, k) /\ hist' = Append(hist, [op |-> "mk", d |-> d, n |-> n, k |-> k]) /\ UNCHANGED list
           \/ \E x \in DOMAIN fs : fs' = Remove(fs, x[1], x[2]) /\ hist' = Append(hist, [op |-> "rm", d |-> x[1], n |-> x[2]]) /\ UNCHANGED list
           \/ \E d \in Dirs : /\ list' = Merge(list, {Id(d, n) : n \in Files(fs, d)})
                              /\ hist' = Append(hist, [op |-> "list", b |-> d]) /\ UNCHANGED fs
        /\ (Len(hist') = MaxOps /\ \E i \in DOMAIN hist' : hist'[i].op = "list") => PrintT("@@" \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
(* the listing relation is functional, and listing twice doubles the entries *)
SortedInv == Sorted(list)
ListInv == \A d \in Dirs : LET A == {Id(d, n) : n \in Files(fs, d)} IN Listed(list, A, Merge(list, A))
(* only listed files, and only regular ones, are in the list *)
OriginInv == \A i \in DOMAIN list : \E j \in DOMAIN hist : hist[j].op = "mk" /\ hist[j].k \in Regular /\ Id(hist[j].d, hist[j].n) = list[i]
=============================================================================
