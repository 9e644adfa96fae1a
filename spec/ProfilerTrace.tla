---------------------------- MODULE ProfilerTrace ----------------------------
(* Recorded sample histories (C23).  print: rows of printStats with values in *)
(* thousandths; timer: a scoped timer, tt counts its labels' samples.         *)
EXTENDS Profiler, TraceBase
VARIABLES rec, h, l
vars == <<rec, h, l>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ rec = << >>
E == Hist[h].ev[l]
Add(f, a, t) == [x \in (DOMAIN f) \cup {a} |-> IF x = a THEN (IF a \in DOMAIN f THEN Append(f[a], t) ELSE <<t>>) ELSE f[x]]
RowOk(w, s) ==
    LET n == Len(s) IN
    /\ w.n = n
    /\ w.min = 1000 * MinOf(s) /\ w.max = 1000 * MaxOf(s)
    /\ AbsP(w.avg * n - 1000 * Sum1(s)) <= n
    /\ IF n = 1 THEN w.var = 0 ELSE AbsP(w.var * n * (n - 1) - 1000 * VarNum(s)) <= 2 * n * (n - 1)
Printed(rows) ==
    /\ Len(rows) = Cardinality(DOMAIN rec)
    /\ {rows[i].a : i \in DOMAIN rows} = DOMAIN rec
    /\ \A i \in DOMAIN rows : RowOk(rows[i], rec[rows[i].a])
Step ==
    /\ l <= Len(Hist[h].ev)
    /\ CASE E.op = "stat" -> rec' = Add(rec, E.a, E.t)
         [] E.op = "print" -> Printed(E.rows) = TRUE /\ UNCHANGED rec
         \* a scoped timer: samples taken inside the scope do not decrease and measure
         \* milliseconds of the enclosing time; the label gets one sample per scope
         [] E.op = "timer" -> (E.mono /\ E.inside /\ E.count = E.k /\ E.stored) = TRUE /\ UNCHANGED rec
         \* k nested scopes under one label inside one of another label
         [] E.op = "nest" -> (E.count = E.k /\ E.around = 1 /\ E.stored) = TRUE /\ UNCHANGED rec
         [] OTHER -> FALSE
    /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
