-------------------------- MODULE MinMaxHeapArrMC --------------------------
(* Inductive step: from EVERY tree of at most MaxN values 1..MaxVal that      *)
(* satisfies the invariant, every operation keeps the invariant and has the   *)
(* effect of the abstract queue.  (Trees are grown level by level, so that    *)
(* exactly the valid ones are enumerated.)                                    *)
EXTENDS MinMaxHeapArr, Json
CONSTANTS MaxN, MaxVal, Sample
VARIABLES a, op, b
vars == <<a, op, b>>
M == INSTANCE MinMaxHeap WITH items <- a, order <- "less"
Init == a = <<>> /\ op = "grow" /\ b = <<>>
Fits(c) == LET n == Len(c) IN \A r \in 1..(n - 1) : Under(n, r) => IF OnMin(r) THEN c[r] <= c[n] ELSE c[r] >= c[n]
Hash(c) == IF c = <<>> THEN 0 ELSE c[1] + 3 * c[Len(c)] + 5 * c[Len(c) \div 2 + 1] + 7 * Len(c) + 11 * c[(2 * Len(c)) \div 3 + 1]
Grow == op = "grow" /\ Len(a) < MaxN /\ \E v \in 1..MaxVal : LET c == Append(a, v) IN
        /\ Fits(c) /\ a' = c /\ b' = c /\ op' = "grow"
        /\ ((Hash(c) % Sample = 0) => PrintT("@@" \o ToJson(c)))
Apply == op = "grow" /\ UNCHANGED a /\
    \/ \E v \in 1..MaxVal : op' = "push" /\ b' = PushA(a, v)
    \/ a # <<>> /\ op' = "popTop" /\ b' = PopTopA(a)
    \/ a # <<>> /\ op' = "popBottom" /\ b' = PopBottomA(a)
Next == Grow \/ Apply
Spec == Init /\ [][Next]_vars

TreeInv == HeapInv(b)
Count(c, v) == Cardinality({i \in DOMAIN c : c[i] = v})
Changed(v, k) == \A w \in 1..MaxVal : Count(b, w) = Count(a, w) + (IF w = v THEN k ELSE 0)
RefineInv == CASE op = "grow" -> TRUE
               [] op = "push" -> \E v \in 1..MaxVal : Changed(v, 1)
               [] op = "popTop" -> Changed(M!MinOf({a[i] : i \in DOMAIN a}), -1)
               [] op = "popBottom" -> Changed(M!MaxOf({a[i] : i \in DOMAIN a}), -1)
(* the extremes and second extremes are where the algorithm looks for them *)
ViewInv == (op = "grow" /\ a # <<>>) =>
    /\ M!IsLeast("less", a, 1) /\ M!IsGreatest("less", a, MaxPos(a))
    /\ SecondLowA(a) = M!SecondLow("less", a) /\ SecondHighA(a) = M!SecondHigh("less", a)
=============================================================================
