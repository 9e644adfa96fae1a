------------------------------ MODULE Numeric ------------------------------
(* Fast elementary functions and PNEBI (rofl/common/functions.h).             *)
EXTENDS Angle
(* accuracy of the approximations, in millionths *)
TolCosSin == 1500
TolAtan == 20
CosSinOk(a, c, s) == AbsI(c - CosA(a)) <= TolCosSin + 40 /\ AbsI(s - SinA(a)) <= TolCosSin + 40
(* the angle th of a point in direction a: both half turns denote the negative x axis *)
AtanOk(a, th) == LET w == Wrap(a) IN
    \/ AbsI(th - Micro(w)) <= TolAtan + 2
    \/ w = 18000 /\ AbsI(th + Micro(w)) <= TolAtan + 2

(* ---- PNEBI(k, x) = 2 exp(-x) I_k(x), x = xn / xd, values in 1/U ---- *)
U == 100000
(* P[k+1] is the value of order k.  I_{k-1} - I_{k+1} = (2 k / x) I_k *)
Recurrence(P, xn, xd) == \A k \in 1..(Len(P) - 2) :
    AbsI(xn * (P[k] - P[k + 2]) - 2 * k * xd * P[k + 1]) <= 2 * xn + 2 * k * xd
RECURSIVE Sum(_, _)
Sum(P, i) == IF i > Len(P) THEN 0 ELSE P[i] + Sum(P, i + 1)
(* exp(x) = I_0 + 2 sum I_k: the orders above n are negligible when n^2 > 40 x and n > 10 *)
Complete(P, xn, xd) == LET n == Len(P) - 1 IN n > 10 /\ n * n * xd > 40 * xn
Total(P) == P[1] + 2 * Sum(P, 2)
Normalised(P, xn, xd) == /\ Total(P) <= 2 * U + 2 * Len(P) + 4
                         /\ Complete(P, xn, xd) => AbsI(Total(P) - 2 * U) <= 2 * Len(P) + 4
Decreasing(P) == \A k \in 1..(Len(P) - 1) : P[k + 1] <= P[k] /\ P[k + 1] >= 0

(* ---- a look-up table with linear interpolation: knots is a sequence of <<x, y>> ---- *)
Lower(T, x) == CHOOSE i \in 1..Len(T) : T[i][1] <= x /\ \A j \in 1..Len(T) : T[j][1] <= x => j <= i
(* numerator and denominator of the interpolated value *)
LutNum(T, x) == LET i == Lower(T, x) IN
    IF i = Len(T) THEN T[i][2]
    ELSE T[i][2] * (T[i + 1][1] - x) + T[i + 1][2] * (x - T[i][1])
LutDen(T, x) == LET i == Lower(T, x) IN IF i = Len(T) THEN 1 ELSE T[i + 1][1] - T[i][1]
=============================================================================
