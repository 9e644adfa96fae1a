----------------------------- MODULE NumericMC -----------------------------
(* The angles of a grid, and every look-up table over every convex decreasing *)
(* function on 0..X with values 0..V.                                         *)
EXTENDS Numeric, TLC, Json
CONSTANTS X, V, Step
VARIABLES f, knots, a, phase
vars == <<f, knots, a, phase>>
Init == phase = "start" /\ f = <<>> /\ knots = {} /\ a = 0
Convex(g) == \A i \in 1..(Len(g) - 2) : g[i] - g[i + 1] >= g[i + 1] - g[i + 2]
Next == \/ /\ phase = "start" /\ phase' = "angle" /\ a' \in {Step * i : i \in 0..((2 * Turn) \div Step)} /\ UNCHANGED <<f, knots>>
           /\ PrintT("@@" \o ToJson([a |-> a' - Turn]))
        \/ /\ phase = "start" /\ phase' = "fun" /\ f' = <<V>> /\ UNCHANGED <<knots, a>>
        \/ /\ phase = "fun" /\ Len(f) <= X /\ \E v \in 0..f[Len(f)] : Convex(Append(f, v)) /\ f' = Append(f, v)
           /\ UNCHANGED <<knots, a, phase>>
        \/ /\ phase = "fun" /\ Len(f) = X + 1 /\ phase' = "lut" /\ \E K \in SUBSET (1..X) : knots' = {0} \union K
           /\ UNCHANGED <<f, a>>
Spec == Init /\ [][Next]_vars
RECURSIVE Sorted(_)
Sorted(K) == IF K = {} THEN <<>> ELSE LET m == CHOOSE x \in K : \A y \in K : x <= y IN <<m>> \o Sorted(K \ {m})
Table == LET s == Sorted(knots) IN [i \in 1..Len(s) |-> <<s[i], f[s[i] + 1]>>]
MaxStep == LET d == {Table[i][2] - Table[i + 1][2] : i \in 1..(Len(Table) - 1)} \union {Table[Len(Table)][2]}
           IN  CHOOSE m \in d : \A x \in d : x <= m
(* the error of the table is at most the largest drop between knots (the last one to zero) *)
LutInv == phase = "lut" => \A x \in 0..X :
    LET n == LutNum(Table, x)
        d == LutDen(Table, x)
    IN  n - f[x + 1] * d <= MaxStep * d /\ f[x + 1] * d - n <= MaxStep * d
LutExact == phase = "lut" => \A x \in knots : LutNum(Table, x) = f[x + 1] * LutDen(Table, x)
(* the trigonometric table *)
Sq(x) == ((x \div 100) * (x \div 100)) \div 100           \* in millionths
TrigInv == phase = "angle" =>
    /\ AbsI(Sq(CosA(a)) + Sq(SinA(a)) - One) <= 600
    /\ CosA(a) = CosA(0 - a) /\ CosA(a + Turn) = CosA(a) /\ CosA(a + 18000) = 0 - CosA(a)
    /\ AbsI(CosA(2 * a) - (2 * Sq(CosA(a)) - One)) <= 900
    /\ CosSinOk(a, CosA(a), SinA(a)) /\ AtanOk(a, Micro(Wrap(a)))
=============================================================================
