-------------------------------- MODULE Box --------------------------------
(* Registration of a box to a point cloud (rofl/geometry/box_registration.h). *)
(* The box has half sides hs[d]; points are tuples of integers.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
SumF(f) == SumTo(f, Len(f))
Dot(p, q) == IF Len(p) = 2 THEN p[1] * q[1] + p[2] * q[2] ELSE p[1] * q[1] + p[2] * q[2] + p[3] * q[3]
Sub(p, q) == [d \in 1..Len(p) |-> p[d] - q[d]]
Add(p, q) == [d \in 1..Len(p) |-> p[d] + q[d]]
Dist2(p, q) == LET v == Sub(p, q) IN Dot(v, v)
Inside(hs, p) == \A d \in 1..Len(p) : AbsI(p[d]) <= hs[d]
OnSurface(hs, p) == Inside(hs, p) /\ \E d \in 1..Len(p) : AbsI(p[d]) = hs[d]
MinSet(X) == CHOOSE x \in X : \A y \in X : x <= y
(* squared distance of a point from the surface *)
Clamp(hs, p) == [d \in 1..Len(p) |-> IF p[d] > hs[d] THEN hs[d] ELSE IF p[d] < 0 - hs[d] THEN 0 - hs[d] ELSE p[d]]
SurfDist2(hs, p) == IF Inside(hs, p) THEN LET m == MinSet({hs[d] - AbsI(p[d]) : d \in 1..Len(p)}) IN m * m
                    ELSE Dist2(p, Clamp(hs, p))
Nearest(hs, q, p) == OnSurface(hs, p) /\ Dist2(q, p) = SurfDist2(hs, q)

(* ---- rigid motions: rotation matrix R / k (rows, rational), translation t ---- *)
Apply(R, k, t, p) == [i \in 1..Len(p) |-> (Dot(R[i], p) \div k) + t[i]]
ApplyInv(R, k, t, p) == LET v == Sub(p, t) IN [j \in 1..Len(p) |-> SumF([i \in 1..Len(p) |-> R[i][j] * v[i]]) \div k]

(* ---- the Procrustes problem: rotation R and translation t minimising the     ---- *)
(* sum of squared distances of R m_i + t from c_i.  R and t are fixed-point, unit 1/W *)
W == 1000
Sq(M) == {<<i, j>> : i \in 1..Len(M), j \in 1..Len(M)}
Sums(P) == TLCEval([d \in 1..Len(P[1]) |-> SumF([i \in 1..Len(P) |-> P[i][d]])])
(* n times the cross covariance: entry (a, b) = sum of (m_a - mean)(c_b - mean) *)
Cross(M, C) == LET n == Len(M)
                   sm == Sums(M)
                   sc == Sums(C)
               IN  TLCEval([a \in 1..Len(sm) |-> [b \in 1..Len(sm) |-> n * SumF([i \in 1..n |-> M[i][a] * C[i][b]]) - sm[a] * sc[b]]])
Det(R) == IF Len(R) = 2 THEN R[1][1] * R[2][2] - R[1][2] * R[2][1]
          ELSE   ((R[1][1] * (R[2][2] * R[3][3] - R[2][3] * R[3][2])) \div W)
               - ((R[1][2] * (R[2][1] * R[3][3] - R[2][3] * R[3][1])) \div W)
               + ((R[1][3] * (R[2][1] * R[3][2] - R[2][2] * R[3][1])) \div W)
Rotation(R) == /\ \A i, j \in 1..Len(R) : AbsI(Dot(R[i], R[j]) - (IF i = j THEN W * W ELSE 0)) <= 4 * W
               /\ Det(R) > 0
Prod(R, S) == TLCEval([i \in 1..Len(R) |-> [j \in 1..Len(R) |-> SumF([k \in 1..Len(R) |-> R[i][k] * S[k][j]])]])
Trace(M) == M[1][1] + M[2][2] + (IF Len(M) = 3 THEN M[3][3] ELSE 0)
MaxAbs(S) == LET A == {AbsI(S[x[1]][x[2]]) : x \in Sq(S)} IN CHOOSE m \in A : \A a \in A : a <= m
(* large covariances are scaled down to the integers of TLC; only the direction of S matters *)
Scaled(S) == LET m == MaxAbs(S) IN IF m <= 8000 THEN S ELSE TLCEval([a \in 1..Len(S) |-> [b \in 1..Len(S) |-> S[a][b] \div (m \div 4000)]])
Dirs(n) == {u \in [1..n -> (0 - 3)..3] : u[1] >= 0}
Quad(M, u) == u[1] * Dot(M[1], u) + u[2] * Dot(M[2], u) + (IF Len(u) = 3 THEN u[3] * Dot(M[3], u) ELSE 0)
(* R maximises trace(R S) among rotations exactly when M = R S is symmetric and trace(M) I - M is positive semidefinite *)
Best(R, S) == LET M == Prod(R, S)
                  tr == TLCEval(Trace(M))
                  tol == TLCEval(2 * W + 3 * MaxAbs(S) + (IF MaxAbs(S) > 3999 THEN 4 * W ELSE 0))       \* R is rounded to 1/W, S if scaled
              IN  /\ \A x \in Sq(M) : AbsI(M[x[1]][x[2]] - M[x[2]][x[1]]) <= tol
                  /\ (Len(R) = 2 => Trace(M) >= 0 - tol)
                  /\ (Len(R) = 3 => \A u \in Dirs(3) : tr * Dot(u, u) - Quad(M, u) >= 0 - 4 * Dot(u, u) * tol)
Centred(R, t, M, C) == LET sm == Sums(M)
                           sc == Sums(C)
                       IN  \A i \in 1..Len(sm) : AbsI(Len(M) * t[i] + Dot(R[i], sm) - W * sc[i]) <= 3 * Len(M) + SumF([d \in 1..Len(sm) |-> AbsI(sm[d])])
Procrustes(R, t, M, C) == Rotation(R) /\ Best(R, Scaled(Cross(M, C))) /\ Centred(R, t, M, C)
(* the same optimum by comparison with another rotation Q (integers) *)
CostLeq(R, Q, S) == Trace(Prod(R, S)) >= W * Trace(Prod(Q, S)) - 3 * Len(R) * MaxAbs(S) - W

(* ---- initial guess: the centroid and the axes of the cloud ---- *)
(* spread of the cloud along axis d of the frame N / k (times k^2) *)
Spread(C, N, d) == LET n == Len(C)
                       p == TLCEval([i \in 1..n |-> SumF([c \in 1..Len(N) |-> N[c][d] * C[i][c]])])
                       s == SumF(p)
                   IN  n * SumF([i \in 1..n |-> p[i] * p[i]]) - s * s
Axis(R, j, N, k, a) == \E sg \in {1, -1} : \A i \in 1..Len(R) : AbsI(k * R[i][j] - sg * W * N[i][a]) <= 2 * k
(* N / k: axes of the cloud.  Box axis j goes to the cloud axis with the same rank: smaller sides to smaller spreads *)
InitOk(R, t, hs, C, N, k) ==
    /\ LET sp == TLCEval([a \in 1..Len(hs) |-> Spread(C, N, a)]) IN
       \E a \in [1..Len(hs) -> 1..Len(hs)] :
          /\ \A i, j \in 1..Len(hs) : i # j => a[i] # a[j]
          /\ \A j \in 1..Len(hs) : Axis(R, j, N, k, a[j])
          /\ \A i, j \in 1..Len(hs) : hs[i] < hs[j] => sp[a[i]] <= sp[a[j]]
    /\ LET sc == Sums(C) IN \A i \in 1..Len(sc) : AbsI(Len(C) * t[i] - W * sc[i]) <= Len(C)
=============================================================================
