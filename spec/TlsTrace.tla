------------------------------ MODULE TlsTrace ------------------------------
(* Recorded estimates (C22).  est: estimate in thousandths; in: inlier flags. *)
EXTENDS Tls, TraceBase
VARIABLES h, l
vars == <<h, l>>
Init == h \in 1..Len(Hist) /\ l = 1
E == Hist[h].ev[l]
Estimated(e) == LET wv == Weights(e.r, e.flat) IN
    /\ Len(e.inl) = Len(e.x)
    /\ \E A \in Optimal(e.x, e.r, wv, e.u, e.slack) :
          /\ AbsT(e.est * W(wv, A) - 1000 * P(e.x, wv, A)) <= 2 * W(wv, A)
          /\ LET F == {i \in DOMAIN e.x : e.inl[i]}
                 I == Inliers(e.x, e.r, wv, A)
             IN  I \subseteq F /\ F \subseteq (I \cup (IF e.slack # 0 THEN Edge(e.x, e.r, wv, A) ELSE {}))
Step == /\ l <= Len(Hist[h].ev)
        /\ CASE E.op = "tls" -> Estimated(E) = TRUE
             [] OTHER -> FALSE
        /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
