----------------------------- MODULE ProfilerMC -----------------------------
(* The online (Welford) recurrences in exact rationals against the definition.*)
(* mean = mn / n, and m2 = sum of squared deviations = q / n.                 *)
EXTENDS Profiler, TLC, Json
CONSTANTS Labels, Times, MaxOps
VARIABLES rec, on, hist
vars == <<rec, on, hist>>
Init == rec = [a \in Labels |-> <<>>] /\ on = [a \in Labels |-> [n |-> 0, s |-> 0, q |-> 0]] /\ hist = <<>>
(* m2' = m2 + (t - mean)(t - mean') with mean = s/n, mean' = (s+t)/(n+1):
   (t - s/n)(t - (s+t)/(n+1)) = (n t - s)^2 / (n (n+1)) *)
Online(o, t) ==
    IF o.n = 0 THEN [n |-> 1, s |-> t, q |-> 0]
    ELSE [n |-> o.n + 1, s |-> o.s + t, q |-> ((o.n + 1) * o.q + (o.n * t - o.s) * (o.n * t - o.s)) \div o.n]
Next == /\ Len(hist) < MaxOps
        /\ \E a \in Labels, t \in Times :
              /\ rec' = [rec EXCEPT ![a] = Append(@, t)]
              /\ on' = [on EXCEPT ![a] = Online(@, t)]
              /\ hist' = Append(hist, [op |-> "stat", a |-> a, t |-> t])
        /\ (Len(hist') = MaxOps => PrintT("@@" \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
OnlineInv == \A a \in Labels : Len(rec[a]) > 0 =>
    /\ on[a].n = Len(rec[a]) /\ on[a].s = Sum1(rec[a]) /\ on[a].q = VarNum(rec[a])
    /\ VarNum(rec[a]) >= 0
    /\ MinOf(rec[a]) * on[a].n <= on[a].s /\ on[a].s <= MaxOf(rec[a]) * on[a].n
(* the samples of a label are those of the history, in order *)
LabelInv == \A a \in Labels : rec[a] = LET F(e) == e.a = a
                                           S == SelectSeq(hist, F) IN [i \in DOMAIN S |-> S[i].t]
=============================================================================
