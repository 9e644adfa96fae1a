--------------------------- MODULE IntervalIndices ---------------------------
(* rofl::IntervalIndices: a product of integer intervals.  An interval is a   *)
(* record [min, dim] of equally long sequences; dim may be zero or negative   *)
(* (empty interval).                                                          *)
EXTENDS Integers, Sequences, FiniteSets

Mk(m, d) == [min |-> m, dim |-> d]
Dims(a) == DOMAIN a.min
Zip(f(_), a) == [d \in Dims(a) |-> f(d)]

(* the four ways to initialise *)
FromBounds(m, d)   == Mk(m, d)
FromMinMax(m, M)   == Mk(m, [d \in DOMAIN m |-> M[d] - m[d] + 1])
FromCentered(c, w) == Mk([d \in DOMAIN c |-> c[d] - w[d]], [d \in DOMAIN c |-> 2 * w[d] + 1])

MaxIdx(a)  == [d \in Dims(a) |-> a.min[d] + a.dim[d] - 1]
LastIdx(a) == [d \in Dims(a) |-> a.min[d] + a.dim[d]]

Empty(a) == \E d \in Dims(a) : a.dim[d] <= 0
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Size(a) == IF Empty(a) THEN 0 ELSE Prod(a.dim)
(* the same number in base 10000, least significant digit first (cardinalities beyond TLC's integers) *)
RECURSIVE MulDigits(_, _, _)
MulDigits(ds, f, carry) ==
    IF ds = <<>> THEN IF carry = 0 THEN <<>> ELSE <<carry % 10000>> \o MulDigits(<<>>, f, carry \div 10000)
    ELSE LET x == (Head(ds) * f) + carry IN <<x % 10000>> \o MulDigits(Tail(ds), f, x \div 10000)
RECURSIVE ProdDigits(_)
ProdDigits(s) == IF s = <<>> THEN <<1>> ELSE MulDigits(ProdDigits(Tail(s)), Head(s), 0)
BigSize(a) == IF Empty(a) THEN <<>> ELSE ProdDigits(a.dim)
Inside(a, t) == \A d \in Dims(a) : a.min[d] <= t[d] /\ t[d] < a.min[d] + a.dim[d]

MaxI(x, y) == IF x > y THEN x ELSE y
MinI(x, y) == IF x < y THEN x ELSE y

(* a representative of the intersection (empty ones may be represented differently) *)
Intersect(a, b) ==
    Mk([d \in Dims(a) |-> MaxI(a.min[d], b.min[d])],
       [d \in Dims(a) |-> MinI(a.min[d] + a.dim[d], b.min[d] + b.dim[d]) - MaxI(a.min[d], b.min[d])])

(* block of thickness |k| just beyond the upper (k >= 0) or lower (k < 0) face along e *)
Stacked(a, e, k) ==
    Mk([d \in Dims(a) |-> IF d # e THEN a.min[d] ELSE IF k >= 0 THEN a.min[d] + a.dim[d] ELSE a.min[d] + k],
       [d \in Dims(a) |-> IF d # e THEN a.dim[d] ELSE IF k >= 0 THEN k ELSE 0 - k])

Translate(a, v) == Mk([d \in Dims(a) |-> a.min[d] + v[d]], a.dim)

(* same set of tuples *)
Same(a, b) == (Empty(a) /\ Empty(b)) \/ a = b

(* ------------------------------------------------- orders of traversal -- *)
RECURSIVE Stride(_, _)
Stride(a, d) == IF d = 1 THEN 1 ELSE a.dim[d - 1] * Stride(a, d - 1)

(* tuple at position k (from 0) in raster order: dimension 1 fastest *)
RasterAt(a, k) == [d \in Dims(a) |-> a.min[d] + ((k \div Stride(a, d)) % a.dim[d])]
RasterPos(a, t) == LET n == Len(a.min)
                       P[d \in 0..n] == IF d = 0 THEN 0 ELSE P[d - 1] + (t[d] - a.min[d]) * Stride(a, d)
                   IN  P[n]

(* tuple at position k in boustrophedon order: as raster, but every other sweep
   of a dimension runs backwards *)
BoustAt(a, k) ==
    [d \in Dims(a) |->
        LET q == k \div Stride(a, d)            \* unit moves of dimension d so far
            digit == q % a.dim[d]
            sweep == q \div a.dim[d]
        IN  a.min[d] + (IF sweep % 2 = 0 THEN digit ELSE a.dim[d] - 1 - digit)]

RasterSeq(a) == [k \in 1..Size(a) |-> RasterAt(a, k - 1)]
BoustSeq(a)  == [k \in 1..Size(a) |-> BoustAt(a, k - 1)]

(* denotation, for model checking on small intervals *)
RECURSIVE Den(_)
Den(a) == IF a.min = <<>> THEN {<<>>}
          ELSE LET rest == Den(Mk(Tail(a.min), Tail(a.dim)))
               IN  {<<i>> \o r : i \in (a.min[1])..(a.min[1] + a.dim[1] - 1), r \in rest}

UnitStep(s, t) == \E d \in DOMAIN s : /\ s[d] - t[d] \in {-1, 1}
                                      /\ \A e \in DOMAIN s : e # d => s[e] = t[e]
=============================================================================
