------------------------------ MODULE GuardMC ------------------------------
(* All request histories of at most MaxLen requests on each object.           *)
EXTENDS Guard, TLC, Json
CONSTANTS MaxLen, Kinds
VARIABLES hist, kind
Idx(n) == (-1)..(n + 1)
Menu(k) ==
    CASE k = "heap" -> {[op |-> x] : x \in {"push", "push", "top", "bottom", "nextTop", "nextBottom", "popTop", "popBottom"}}
      [] k = "lut" -> {[op |-> "lut", k |-> n] : n \in 0..2} \cup {[op |-> "eval", k |-> n] : n \in Idx(2)}
      [] k = "interval" -> {[op |-> x, k |-> n] : x \in {"stacked", "translate"}, n \in Idx(2)}
      [] k = "line" -> {[op |-> "line", i |-> <<2, 1>>], [op |-> "line", i |-> <<1, 2>>]}
                       \cup {[op |-> x, i |-> <<a, b>>, v |-> b % 2] : x \in {"ht2", "hs2"}, a \in Idx(2), b \in Idx(1)}
      [] k = "plane" -> {[op |-> "plane", i |-> <<2, 1, 1>>], [op |-> "plane", i |-> <<1, 1, 2>>], [op |-> "plane", i |-> <<1, 2, 1>>]}
                       \cup {[op |-> x, i |-> <<a, b, c>>, v |-> (a + c) % 2] : x \in {"ht3", "par3", "hs3", "nor3"}, a \in (-1)..2, b \in (-1)..2, c \in (-1)..2}
      [] k = "peak" -> {[op |-> "domain", i |-> <<a, b>>] : a \in 0..2, b \in 0..2} \cup {[op |-> "detect"]}
      [] OTHER -> {}
Len2(k) == IF k = "plane" THEN 2 ELSE IF k \in {"line", "peak"} THEN 3 ELSE MaxLen
Init == Start /\ hist = <<>> /\ kind \in Kinds
Next ==
    /\ up /\ Len(hist) < Len2(kind)
    /\ \E o \in Menu(kind) :
          /\ Request(o, 2, Valid(o, 2)) /\ hist' = Append(hist, o)
          /\ (up' /\ Len(hist') < Len2(kind)) \/ PrintT("@@" \o ToJson(hist'))
    /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<gvars, hist, kind>>

(* the same, told from the history alone *)
Count(s, xs) == Len(SelectSeq(s, LAMBDA o : o.op \in xs))
Ups == SubSeq(hist, 1, Len(hist) - 1)
Items(s) == Count(s, {"push"}) - Count(s, {"popTop", "popBottom"})
RECURSIVE LastOf(_, _, _)
LastOf(s, x, d) == IF s = <<>> THEN d ELSE IF s[Len(s)].op = x THEN s[Len(s)] ELSE LastOf(SubSeq(s, 1, Len(s) - 1), x, d)
HeapInv == (up => hn = Items(hist) /\ hn >= 0) /\ (kind = "heap" /\ ~up => hn = 0 /\ Items(Ups) = 0)
LutInv == kind = "lut" /\ ~up => LET m == LastOf(Ups, "lut", [k |-> -1]).k IN m >= 0 /\ hist[Len(hist)].k \notin 0..m
LineInv == kind = "line" /\ ~up => LET m == LastOf(Ups, "line", [i |-> <<0, 0>>]).i
                                       q == hist[Len(hist)]
                                   IN  ~(q.i[1] \in 0..(m[1] - 1)) \/ (q.op = "ht2" /\ ~(q.i[2] \in 0..(m[2] - 1)))
PeakInv == kind = "peak" /\ ~up => LET m == LastOf(Ups, "domain", [i |-> <<0, 0>>]).i IN m[1] * m[2] = 0
=============================================================================
