----------------------------- MODULE FourierMC -----------------------------
(* All intervals of a few turns.                                              *)
EXTENDS Fourier, TLC, Json
CONSTANTS Back, Fwd, Off, Phases
VARIABLES a, b, p, phase
vars == <<a, b, p, phase>>
Init == phase = 0 /\ a = 0 /\ b = 0 /\ p = 0
Next == \/ phase = 0 /\ phase' = 1 /\ a' \in {15 * k + o : k \in (0 - Back)..Fwd, o \in {0, 1}} /\ UNCHANGED <<b, p>>
        \/ phase = 1 /\ phase' = 2 /\ b' \in {15 * k + o : k \in (0 - Back)..Fwd, o \in Off} /\ UNCHANGED <<a, p>> /\ PrintT("@@" \o ToJson([k |-> "cos", a |-> a, b |-> b]))
        \/ phase = 2 /\ phase' = 3 /\ p' \in Phases /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
(* bounds as in the code: end points, and +-1 when a multiple of pi is inside *)
CaseMax(x, y) == IF \E k \in (x \div 360)..(y \div 360 + 1) : x <= 360 * k /\ 360 * k <= y THEN S ELSE MaxF({CosD(x), CosD(y)})
CaseMin(x, y) == IF \E k \in ((x - 180) \div 360)..(y \div 360 + 1) : x <= 360 * k + 180 /\ 360 * k + 180 <= y THEN 0 - S ELSE MinF({CosD(x), CosD(y)})
CasesInv == phase >= 2 => LET x == Lo(a, b)
                              y == Hi(a, b)
                          IN  CosMax(a, b) = CaseMax(x, y) /\ CosMin(a, b) = CaseMin(x, y)
(* monotone in the interval, symmetric, shifted by half a turn *)
ShiftInv == phase >= 2 => /\ CosMin(a, b) = 0 - CosMax(a + 180, b + 180) /\ CosMax(a, b) = CosMax(b, a)
                          /\ CosMax(a, b) = CosMax(0 - a, 0 - b)
                          /\ CosMax(Lo(a, b) - 1, Hi(a, b) + 1) >= CosMax(a, b)
(* term-wise bounds enclose the series, and are attained with a single term *)
EncloseInv == phase = 3 => LET A == <<3, 5, 2>>
                               P == <<0, p, p + 100>>
                               lo == TLCEval(Least(A, P, a, b))
                               hi == TLCEval(Greatest(A, P, a, b))
                           IN  \A x \in Steps(a, b) : lo <= Value(A, P, x) /\ Value(A, P, x) <= hi
(* a single term attains its bounds: at grid points, or half way between two *)
TightInv == phase = 3 => LET B == <<3, 5>>
                             g == TLCEval(Greatest(B, <<0, p>>, a, b))
                         IN
    /\ g = 3 * S + 5 * CosMax(2 * a - p, 2 * b - p)
    /\ \E y \in Steps(2 * a - p, 2 * b - p) : 5 * CosD(y) + 3 * S = g
=============================================================================
