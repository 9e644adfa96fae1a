----------------------------- MODULE MortonTree -----------------------------
(* rofl::MortonTree: a bag of items (integer coordinates and an identifier),   *)
(* kept as a sequence that lookups put in Morton order.  Coordinates are       *)
(* integers (or integers scaled by a power of two for floating point trees).  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE seq            \* <<[v |-> <<int, ...>>, id |-> int], ...>>

RECURSIVE HB(_, _, _), Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 2 * Pow(k - 1)
(* highest bit in which the two's complement expansions of x # y (same sign) differ *)
HB(x, y, k) == IF x = y THEN k - 1 ELSE HB(x \div 2, y \div 2, k + 1)
Lev(x, y) == IF x = y THEN -1 ELSE IF (x < 0) # (y < 0) THEN 99 ELSE HB(x, y, 0)
MLess(a, b) ==
    LET d == CHOOSE i \in DOMAIN a : /\ \A j \in DOMAIN a : Lev(a[j], b[j]) <= Lev(a[i], b[i])
                                     /\ \A j \in 1..(i - 1) : Lev(a[j], b[j]) < Lev(a[i], b[i])
    IN  a[d] < b[d]
Sorted(s) == \A i \in 1..(Len(s) - 1) : ~MLess(s[i + 1].v, s[i].v)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
WithIds(s, items, reset) == [i \in DOMAIN items |-> [v |-> items[i].v, id |-> IF reset THEN Len(s) + i - 1 ELSE items[i].id]]

(* actions; seq' is any arrangement the implementation is free to choose *)
Insert(items, reset) == SameBag(seq', seq \o WithIds(seq, items, reset))
Keep == SameBag(seq', seq)
Sort == SameBag(seq', seq) /\ Sorted(seq')
(* number of items that precede q *)
LowerBound(s, q) == Cardinality({i \in DOMAIN s : MLess(s[i].v, q)})
InBox(v, lo, hi) == \A d \in DOMAIN v : lo[d] <= v[d] /\ v[d] <= hi[d]
Hits(s, lo, hi) == {i \in DOMAIN s : InBox(s[i].v, lo, hi)}
(* positions (in order) returned by a search *)
IsHits(s, lo, hi, res) == /\ {res[i] : i \in DOMAIN res} = Hits(s, lo, hi)
                          /\ \A i \in 1..(Len(res) - 1) : res[i] < res[i + 1]
=============================================================================
