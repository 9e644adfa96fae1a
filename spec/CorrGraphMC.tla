---------------------------- MODULE CorrGraphMC ----------------------------
(* All small distance matrices and tolerances; Bron-Kerbosch as an explicit   *)
(* state machine (stack of <<clique, candidates, excluded>>) must end with    *)
(* exactly Best(D).                                                           *)
EXTENDS CorrGraph, TLC, Json
CONSTANTS NS, ND, MaxDist, Tols, Mins, Sample
VARIABLES D, stack, found, phase
vars == <<D, stack, found, phase>>
Pairs(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}
Mats(n) == {[i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 0 ELSE IF i < j THEN f[<<i, j>>] ELSE f[<<j, i>>]]] : f \in [Pairs(n) -> 0..MaxDist]}
None == [src |-> <<>>, dst |-> <<>>, tol |-> 1, dmin |-> 0]
Init == D = None /\ stack = <<>> /\ found = {} /\ phase = "choose"
Hash(m) == LET n == Len(m) IN IF n < 2 THEN 0 ELSE IF n = 2 THEN m[1][2] ELSE m[1][2] + 3 * m[1][3] + 7 * m[2][3]
Choose == phase = "choose" /\ \E s \in Mats(NS), t \in Mats(ND), tol \in Tols, dm \in Mins :
    /\ D' = [src |-> s, dst |-> t, tol |-> tol, dmin |-> dm]
    /\ stack' = <<[c |-> {}, p |-> Nodes(D'), x |-> {}]>>
    /\ phase' = "run" /\ found' = {}
    /\ ((Hash(s) + 5 * Hash(t) + tol + dm) % Sample = 0) => PrintT("@@" \o ToJson(D'))
Adj(a) == {b \in Nodes(D) : b # a /\ Compatible(D, a, b)}
(* one step: the top frame reports, is exhausted, or branches on one candidate *)
Run == phase = "run" /\ stack # <<>> /\ UNCHANGED <<D, phase>> /\
    LET f == stack[Len(stack)]
        rest == SubSeq(stack, 1, Len(stack) - 1)
    IN  IF f.p = {} THEN /\ stack' = rest
                         /\ found' = IF f.x = {} THEN found \cup {f.c} ELSE found
        ELSE LET n == CHOOSE a \in f.p : \A b \in f.p : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
             IN  /\ found' = found
                 \* the last candidate of a frame replaces it, but only if nothing remains to be reported there
                 /\ stack' = rest \o (IF f.p = {n} THEN <<>> ELSE <<[c |-> f.c, p |-> f.p \ {n}, x |-> f.x \cup {n}]>>)
                               \o <<[c |-> f.c \cup {n}, p |-> f.p \cap Adj(n), x |-> f.x \cap Adj(n)]>>
Next == Choose \/ Run
Spec == Init /\ [][Next]_vars
Largest(F) == {A \in F : A # {} /\ \A B \in F : Cardinality(B) <= Cardinality(A)}
(* every reported set is consistent and maximal; at the end the largest are Best(D) *)
SoundInv == \A A \in found : Consistent(D, A)
DoneInv == (phase = "run" /\ stack = <<>>) => (Largest(found) = Best(D))
(* consistent sets are partial injections *)
InjInv == (phase = "run" /\ stack = <<>>) => \A A \in Best(D) : \A a, b \in A : (a[1] = b[1]) = (a[2] = b[2])
=============================================================================
