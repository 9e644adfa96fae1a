----------------------------- MODULE LabelSetMC -----------------------------
(* All pairs of sets over a small universe; the algebra's laws; emitted for   *)
(* replay together with an extra label.                                       *)
EXTENDS LabelSet, TLC, Json
CONSTANTS Labels
VARIABLES hist
Slots == {"a", "b", "c"}
Init == env \in {[s \in Slots |-> IF s = "a" THEN A ELSE IF s = "b" THEN B ELSE {}] : A, B \in SUBSET Labels}
        /\ hist = <<>>
Ops == {"union", "inter", "diff", "rdiff"}
Next == /\ Len(hist) < 2
        /\ \/ Union("c", "a", "b") /\ hist' = Append(hist, "union")
           \/ Inter("c", "a", "b") /\ hist' = Append(hist, "inter")
           \/ Diff("c", "a", "b") /\ hist' = Append(hist, "diff")
           \/ Union("a", "a", "c") /\ hist' = Append(hist, "unionac")
           \/ Diff("b", "b", "c") /\ hist' = Append(hist, "diffbc")
Spec == Init /\ [][Next]_<<env, hist>>
EmitInv == hist = <<>> => PrintT("@@" \o ToJson([a |-> env["a"], b |-> env["b"]]))
LastC == IF hist = <<>> THEN "" ELSE hist[Len(hist)]
Laws == LET A == env["a"]  B == env["b"]  C == env["c"] IN
    /\ LastC = "union" => (A \subseteq C /\ B \subseteq C /\ Cardinality(C) = Cardinality(A) + Cardinality(B) - Cardinality(A \cap B))
    /\ LastC = "inter" => (C \subseteq A /\ C \subseteq B)
    /\ LastC = "diff" => (C \cap B = {} /\ C \cup (A \cap B) = A)
    /\ LastC = "diffbc" => B \cap C = {}
=============================================================================
