------------------------------ MODULE MortonMC ------------------------------
(* All pairs of small integer vectors: the interleaved order is a strict total *)
(* order, equals the comparison by Chan's xor trick (the algorithm of          *)
(* mortonCmpInt), boxes lie between their corners, and cells split properly.   *)
EXTENDS Morton, TLC, Json
CONSTANTS WB, DM, Triples
VARIABLES a, b, sg, ph
vars == <<a, b, sg, ph>>
Words == [1..WB -> {0, 1}]
Vecs == [1..DM -> Words]
Init == a \in Vecs /\ b = a /\ sg \in BOOLEAN /\ ph = 0
Next == /\ ph = 0 /\ ph' = 1 /\ b' \in Vecs /\ UNCHANGED <<a, sg>>
        /\ (sg => PrintT("@@" \o ToJson([a |-> a, b |-> b'])))
Spec == Init /\ [][Next]_vars
RECURSIVE Val(_, _), P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Val(x, i) == IF i = 0 THEN 0 ELSE 2 * Val(x, i - 1) + x[i]
UVal(x) == Val(x, WB)
IVal(x) == IF sg /\ x[1] = 1 THEN UVal(x) - P2(WB) ELSE UVal(x)

L(u, v) == MortonLess(sg, u, v)
(* floor(log2 i) < floor(log2 j), and Chan's formula for it *)
LogLess(x, y) == FirstOne(x) > FirstOne(y)
Msb(x, y) == ULess(x, y) /\ ULess(x, Xor(x, y))
RECURSIVE ChanDim(_, _, _, _)
ChanDim(u, v, d, best) == IF d > DM THEN best
    ELSE ChanDim(u, v, d + 1, IF Msb(Xor(u[best], v[best]), Xor(u[d], v[d])) THEN d ELSE best)
ChanInv == L(a, b) = LET d == ChanDim(a, b, 2, 1) IN IVal(a[d]) < IVal(b[d])
MsbInv == \A d \in 1..DM : Msb(a[d], b[d]) = LogLess(a[d], b[d])
TotalInv == ~L(a, a) /\ (a # b => L(a, b) # L(b, a))
TransInv == (Triples /\ ph = 1 /\ L(a, b)) => \A c \in Vecs : L(b, c) => L(a, c)
BoxInv == (\A d \in 1..DM : IVal(a[d]) <= IVal(b[d])) => ~L(b, a)
BlockInv == \A d \in 1..DM :
    LET B == BlockS(sg, a[d], b[d])  sz == P2(B.level)  lo == IVal(B.low)
        mn == IF IVal(a[d]) < IVal(b[d]) THEN IVal(a[d]) ELSE IVal(b[d])
        mx == IF IVal(a[d]) < IVal(b[d]) THEN IVal(b[d]) ELSE IVal(a[d])
    IN  /\ lo % sz = 0 \/ (B.level = WB /\ lo = 0 - P2(WB - 1))
        /\ IVal(B.upp) = lo + sz - 1
        /\ lo <= mn /\ mx <= IVal(B.upp)
        /\ IF a[d] = b[d] THEN B.level = 0 /\ B.mid = B.low
           ELSE IVal(B.mid) = lo + (sz \div 2) /\ mn < IVal(B.mid) /\ IVal(B.mid) <= mx
(* the split separates the two points in Morton order as well *)
SplitInv == (a # b) => LET S == Split(sg, a, b)  p == IF L(a, b) THEN a ELSE b  q == IF L(a, b) THEN b ELSE a
            IN  ~L(p, S.low) /\ L(p, S.mid) /\ ~L(q, S.mid) /\ ~L(S.upp, q)
DistInv == Distance(a, b) = 0 <=> a = b
=============================================================================
