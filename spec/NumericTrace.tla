---------------------------- MODULE NumericTrace ----------------------------
(* Recorded evaluations (C28).  tab holds what is known of PNEBI(., cfg.x):   *)
(* the longest vector of values published so far.                             *)
EXTENDS Numeric, TraceBase
VARIABLES h, l, tab, lut
vars == <<h, l, tab, lut>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ tab = <<>> /\ lut = [n |-> 0 - 1, tol |-> 0]
E == Hist[h].ev[l]
Cfg == Hist[h].cfg
Min(a, b) == IF a < b THEN a ELSE b
Agree(P, Q) == \A k \in 1..Min(Len(P), Len(Q)) : AbsI(P[k] - Q[k]) <= 2
Known(k) == k < Len(tab)
Ok(e) ==
    CASE e.op = "cs" -> CosSinOk(e.a, e.c, e.s)
      [] e.op = "at2" -> AtanOk(e.a, e.th)
      [] e.op = "at0" -> e.th = 0
      [] e.op = "atan" -> AbsI(e.th - Micro(e.a)) <= TolAtan + 2
      [] e.op = "vec" -> /\ Len(e.p) = e.n + 1
                         /\ Recurrence(e.p, Cfg.xn, Cfg.xd) /\ Normalised(e.p, Cfg.xn, Cfg.xd) /\ Decreasing(e.p)
                         /\ Agree(e.p, tab)
      [] e.op = "p0" -> (Known(0) => AbsI(e.p - tab[1]) <= 2)
      [] e.op = "init" -> e.order = e.n
      [] e.op = "eval" -> IF lut.n < 0 THEN e.p = 0
                          ELSE (Known(e.k) => AbsI(e.p - tab[e.k + 1]) <= lut.tol + 3)
      [] e.op = "far" -> /\ Len(e.p) = lut.n + 1 /\ e.q = e.p /\ Len(e.w) = e.n + 1
                         /\ \A k \in DOMAIN e.p : AbsI(e.p[k]) <= lut.tol + 3
                         /\ \A k \in DOMAIN e.w : AbsI(e.w[k]) <= 2
      [] e.op = "evalv" -> IF lut.n < 0 THEN e.p = e.old
                           ELSE /\ Len(e.p) = (IF Len(e.old) > lut.n + 1 THEN Len(e.old) ELSE lut.n + 1)
                                /\ \A k \in 0..lut.n : Known(k) => AbsI(e.p[k + 1] - tab[k + 1]) <= lut.tol + 3
                                /\ e.q = SubSeq(e.p, 1, lut.n + 1)
      [] OTHER -> FALSE
Step == /\ l <= Len(Hist[h].ev)
        /\ Ok(E) = TRUE
        /\ tab' = IF E.op = "vec" /\ Len(E.p) > Len(tab) THEN E.p ELSE tab
        /\ lut' = IF E.op = "init" THEN [n |-> E.n, tol |-> E.tol] ELSE lut
        /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
