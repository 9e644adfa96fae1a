------------------------------- MODULE TlsMC -------------------------------
(* All small inputs; the end point sweep as a state machine.                  *)
EXTENDS Tls, TLC, Json
CONSTANTS N, MaxX, Rngs
VARIABLES x, r, left, act, seen, phase
vars == <<x, r, left, act, seen, phase>>
Init == x \in [1..N -> 0..MaxX] /\ r = <<>> /\ left = {} /\ act = {} /\ seen = {} /\ phase = "choose"
Choose == phase = "choose" /\ phase' = "run" /\ r' \in [1..N -> Rngs] /\ UNCHANGED <<x, act, seen>>
    /\ left' = {<<i, s>> : i \in 1..N, s \in {-1, 1}}
    /\ PrintT("@@" \o ToJson([x |-> x, r |-> r']))
WV == Weights(r, FALSE)
At(e) == x[e[1]] + e[2] * r[e[1]]
(* any end point of least coordinate may be next *)
Sweep == phase = "run" /\ left # {} /\ UNCHANGED <<x, r, phase>>
    /\ \E e \in left : /\ \A f \in left : At(e) <= At(f)
                       /\ left' = left \ {e}
                       /\ act' = IF e[2] = -1 THEN act \cup {e[1]} ELSE act \ {e[1]}
                       /\ seen' = seen \cup {act'}
Next == Choose \/ Sweep
Spec == Init /\ [][Next]_vars
(* the sets the sweep meets: all the sure ones, only possible ones *)
SeenInv == (phase = "run" /\ left = {}) => (Sure(x, r) \subseteq seen /\ (seen \ {{}}) \subseteq Maybe(x, r))
(* the comparison of fractions is the one by cross products *)
FracInv == (phase = "choose" /\ x[1] > 0 /\ x[2] > 0) => \A p, q \in 0..(3 * x[3] + 2) : FracLeq(p, x[1], q, x[2]) = (p * x[2] <= q * x[1])
(* so its best set is one of Optimal *)
BestInv == (phase = "run" /\ left = {}) =>
    \A A \in seen \ {{}} : (\A B \in seen \ {{}} : NotWorse(x, r, WV, A, B, Unit, 0)) => A \in Optimal(x, r, WV, Unit, 0)
(* a consensus set has a common point and its mean is in the hull of its values *)
MeanInv == (phase = "run" /\ left = {}) => \A A \in seen \ {{}} :
    /\ \A i, j \in A : x[i] - r[i] <= x[j] + r[j]
    /\ \E i, j \in A : x[i] * W(WV, A) <= P(x, WV, A) /\ P(x, WV, A) <= x[j] * W(WV, A)
(* equal weights: the sets met do not depend on the weights, the best of them is in Optimal too *)
FlatInv == (phase = "run" /\ left = {}) => LET fw == Weights(r, TRUE) IN
    \A A \in seen \ {{}} : (\A B \in seen \ {{}} : NotWorse(x, r, fw, A, B, Unit, 0)) => A \in Optimal(x, r, fw, Unit, 0)
(* when all intervals have a common inner point and agree, all are inliers *)
AgreeInv == (phase = "run" /\ left = {} /\ \A i, j \in 1..N : x[i] = x[j]) =>
    \A A \in Optimal(x, r, WV, Unit, 0) : A = 1..N /\ Inliers(x, r, WV, A) = 1..N
=============================================================================
