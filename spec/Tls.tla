-------------------------------- MODULE Tls --------------------------------
(* rofl::estimateTranslationTls: truncated least squares of integer values x  *)
(* with ranges r \in {1, 2, 3, 6} (weights 1/r^2, here in units of 1/36), all *)
(* of them multiplied by the unit of length u.n / u.d.                        *)
EXTENDS Integers, Sequences, FiniteSets

AbsT(a) == IF a < 0 THEN 0 - a ELSE a
Wt(r) == 36 \div (r * r)
RECURSIVE SumOf(_, _)
SumOf(f, A) == IF A = {} THEN 0 ELSE LET i == CHOOSE j \in A : TRUE IN f[i] + SumOf(f, A \ {i})

(* the weights; ranges below a millionth (tiny units of length) weigh alike *)
Weights(r, flat) == [i \in DOMAIN r |-> IF flat THEN 1 ELSE Wt(r[i])]
(* weighted mean of a non-empty set A of indices: P / W *)
W(w, A) == SumOf(w, A)
P(x, w, A) == SumOf([i \in A |-> w[i] * x[i]], A)
(* cost of A, in units, times u.d * W^2: squared distances of A from its mean, plus the ranges of the others *)
CostNum(x, r, wv, A, u) ==
    LET w == W(wv, A)
        p == P(x, wv, A)
    IN  u.n * SumOf([i \in A |-> (x[i] * w - p) * (x[i] * w - p)], A)
        + u.d * w * w * SumOf(r, (DOMAIN x) \ A)

Ends(x, r) == {x[i] - r[i] : i \in DOMAIN x} \cup {x[i] + r[i] : i \in DOMAIN x}
(* values whose open interval contains every point just after e *)
After(x, r, e)  == {i \in DOMAIN x : x[i] - r[i] <= e /\ e < x[i] + r[i]}
Before(x, r, e) == {i \in DOMAIN x : x[i] - r[i] < e /\ e <= x[i] + r[i]}
(* consensus sets that any sweep of the end points meets *)
Sure(x, r) == {After(x, r, e) : e \in Ends(x, r)} \ {{}}
(* ... and those met for some order of coincident end points *)
Maybe(x, r) == (UNION {LET a == After(x, r, e)
                           b == Before(x, r, e)
                       IN  {(a \cap b) \cup s \cup t : s \in SUBSET (a \ b), t \in SUBSET (b \ a)} : e \in Ends(x, r)}) \ {{}}
(* p/q <= s/t for naturals, without products *)
RECURSIVE FracLeq(_, _, _, _)
FracLeq(p, q, s, t) ==
    LET i == p \div q
        j == s \div t
        m == p % q
        n == s % t
    IN  IF i # j THEN i < j ELSE IF m = 0 THEN TRUE ELSE IF n = 0 THEN FALSE ELSE FracLeq(t, n, q, m)
(* p/q in units of 1/1024, rounded down *)
Fine(p, q) == 1024 * (p \div q) + ((1024 * (p % q)) \div q)
(* cost(A) <= cost(B), or exceeding it by less than slack/1024 of the unit *)
NotWorse(x, r, wv, A, B, u, slack) ==
    LET a == W(wv, A) * W(wv, A)
        b == W(wv, B) * W(wv, B)
        p == CostNum(x, r, wv, A, u)
        q == CostNum(x, r, wv, B, u)
    IN  FracLeq(p, a, q, b) \/ (slack > 0 /\ Fine(p, a) <= Fine(q, b) + slack * u.d)
Optimal(x, r, wv, u, slack) == {A \in Maybe(x, r) : \A B \in Sure(x, r) : NotWorse(x, r, wv, A, B, u, slack)}
Unit == [n |-> 1, d |-> 1]
(* values closer to the estimate of A than their range (and those exactly as far) *)
Inliers(x, r, wv, A) == {i \in DOMAIN x : AbsT(x[i] * W(wv, A) - P(x, wv, A)) < r[i] * W(wv, A)}
Edge(x, r, wv, A) == {i \in DOMAIN x : AbsT(x[i] * W(wv, A) - P(x, wv, A)) = r[i] * W(wv, A)}
=============================================================================
