--------------------------- MODULE ParamMapContMC ---------------------------
(* Splitting and filling, for all texts over a small alphabet up to MaxLen    *)
(* characters, against an independent characterisation.                       *)
EXTENDS ParamMap, Json
CONSTANT MaxLen
VARIABLES s, d, n, done
Alpha == {"1", "x", ",", ";"}
RECURSIVE Strs(_)
Strs(k) == IF k = 0 THEN {""} ELSE LET R == Strs(k - 1) IN R \cup {r \o c : r \in R, c \in Alpha}
Init == s \in Strs(MaxLen) /\ d \in {",", ",;", ""} /\ n \in {0, 2, 3} /\ done = FALSE /\ table = <<>>
Next == ~done /\ done' = TRUE /\ UNCHANGED <<s, d, n, table>>
        /\ PrintT("@@" \o ToJson([s |-> s, d |-> d, n |-> n]))
Spec == Init /\ [][Next]_<<s, d, n, done, table>>
RECURSIVE Concat(_, _)
Concat(ps, i) == IF i > Len(ps) THEN "" ELSE ps[i] \o Concat(ps, i + 1)
RECURSIVE Keep(_, _)
Keep(t, i) == IF i > Len(t) THEN "" ELSE (IF Ch(t, i) \in CharsOf(d) THEN "" ELSE Ch(t, i)) \o Keep(t, i + 1)
(* pieces are non-empty, free of delimiters, and together are the text without delimiters;
   there are as many as maximal runs of other characters *)
Runs(t) == Cardinality({i \in 1..Len(t) : Ch(t, i) \notin CharsOf(d) /\ (i = 1 \/ Ch(t, i - 1) \in CharsOf(d))})
SplitInv == LET ps == Split(s, d) IN
    /\ \A i \in DOMAIN ps : ps[i] # "" /\ CharsOf(ps[i]) \cap CharsOf(d) = {}
    /\ Concat(ps, 1) = Keep(s, 1) /\ Len(ps) = Runs(s)
FillInv == LET v == Filled("int", s, d, n, "-3")  g == Good("int", Split(s, d)) IN
    /\ Len(v) = n /\ (n > 0 => \A i \in 1..n : i > g => v[i] = -3)
    /\ Len(Inserted("int", s, d)) = g
=============================================================================
