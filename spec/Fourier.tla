------------------------------ MODULE Fourier ------------------------------
(* Cosine and Fourier series on the grid of whole degrees: values        *)
(* and bounds on intervals (findLUCos, findLUFourier, evaluateFourier of      *)
(* rofl/common/functions.h).  On an interval with end points on the grid the  *)
(* extrema of a cosine are on the grid, so the bounds below are those over    *)
(* all reals.                                                                 *)
EXTENDS Trig, FiniteSetsExt, TLC
MinF(A) == FoldSet(LAMBDA x, m : IF x < m THEN x ELSE m, 1000000, A)
MaxF(A) == FoldSet(LAMBDA x, m : IF x > m THEN x ELSE m, 0 - 1000000, A)
Lo(a, b) == IF a <= b THEN a ELSE b
Hi(a, b) == IF a <= b THEN b ELSE a
(* grid points of an interval, at most one turn of them *)
Steps(a, b) == Lo(a, b) .. (IF Hi(a, b) - Lo(a, b) > 360 THEN Lo(a, b) + 360 ELSE Hi(a, b))
CosMin(a, b) == MinF({CosD(k) : k \in Steps(a, b)})
CosMax(a, b) == MaxF({CosD(k) : k \in Steps(a, b)})

RECURSIVE SumF(_)
SumF(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumF(Tail(s))
(* series with terms A[i] * cos(2 i x - P[i]): amplitudes A, phases P in degrees *)
Value(A, P, x) == SumF([i \in DOMAIN A |-> IF i = 1 THEN S * A[1] ELSE A[i] * CosD(2 * (i - 1) * x - P[i])])
Least(A, P, a, b)    == SumF([i \in DOMAIN A |-> IF i = 1 THEN S * A[1] ELSE A[i] * CosMin(2 * (i - 1) * a - P[i], 2 * (i - 1) * b - P[i])])
Greatest(A, P, a, b) == SumF([i \in DOMAIN A |-> IF i = 1 THEN S * A[1] ELSE A[i] * CosMax(2 * (i - 1) * a - P[i], 2 * (i - 1) * b - P[i])])
(* evaluateFourier: coefficients c of cos(i x), d of sin(i x) *)
Series(c, d, x) == SumF([i \in DOMAIN c |-> c[i] * CosD((i - 1) * x) + d[i] * SinD((i - 1) * x)])
SumAbs(s) == SumF([i \in DOMAIN s |-> AbsI(s[i])])
=============================================================================
