------------------------------- MODULE Morton -------------------------------
(* Morton (Z) order of vectors of machine integers given as bit sequences, and *)
(* the power-of-two blocks used to split them (rofl/common/morton_sort.h).    *)
EXTENDS Bits

Dim(v) == Len(v)
Wd(v) == Len(v[1])
(* interleaving from the most significant level down, dimension 1 first *)
Key(sg, v) == [i \in 1..(Dim(v) * Wd(v)) |-> Flip(sg, v[1 + ((i - 1) % Dim(v))])[1 + ((i - 1) \div Dim(v))]]
MortonLess(sg, a, b) == ULess(Key(sg, a), Key(sg, b))
(* number of levels below and including the highest one in which a and b differ *)
LevelOf(a, b) == W(a) + 1 - FirstDiff(a, b)
Max(S) == CHOOSE m \in S : \A k \in S : k <= m
Distance(a, b) == Max({LevelOf(a[d], b[d]) : d \in 1..Dim(a)})

(* the smallest block of 2^level consecutive integers, aligned, containing x and y *)
Block(x, y) ==
    LET p == FirstDiff(x, y)
        low == [i \in 1..W(x) |-> IF i < p THEN x[i] ELSE 0]
        upp == [i \in 1..W(x) |-> IF i < p THEN x[i] ELSE 1]
        mid == [i \in 1..W(x) |-> IF i < p THEN x[i] ELSE IF i = p THEN 1 ELSE 0]
    IN  [low |-> low, mid |-> mid, upp |-> upp, level |-> LevelOf(x, y)]
(* a signed block across the sign bit is the whole range, split at zero *)
BlockS(sg, x, y) ==
    IF sg /\ x[1] # y[1] THEN LET B == Block(Flip(TRUE, x), Flip(TRUE, y))
                              IN [low |-> Flip(TRUE, B.low), mid |-> Flip(TRUE, B.mid), upp |-> Flip(TRUE, B.upp), level |-> B.level]
    ELSE Block(x, y)
(* splitting the cell of two vectors: the first dimension with the highest level *)
SplitDim(a, b) == CHOOSE d \in 1..Dim(a) : /\ \A c \in 1..Dim(a) : LevelOf(a[c], b[c]) <= LevelOf(a[d], b[d])
                                           /\ \A c \in 1..(d - 1) : LevelOf(a[c], b[c]) < LevelOf(a[d], b[d])
Split(sg, a, b) ==
    LET B == [d \in 1..Dim(a) |-> BlockS(sg, a[d], b[d])]
        s == SplitDim(a, b)
    IN  [low |-> [d \in 1..Dim(a) |-> B[d].low], upp |-> [d \in 1..Dim(a) |-> B[d].upp],
         mid |-> [d \in 1..Dim(a) |-> IF d = s THEN B[d].mid ELSE B[d].low]]
=============================================================================
