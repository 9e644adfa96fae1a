---------------------------- MODULE FourierTrace ----------------------------
(* Recorded bounds and values (C25) in units of 1/S.                          *)
EXTENDS Fourier, TraceBase
VARIABLES h, l
vars == <<h, l>>
Init == h \in 1..Len(Hist) /\ l = 1
E == Hist[h].ev[l]
Ok(e) ==
    CASE e.op = "lucos" -> AbsI(e.lo - CosMin(e.a, e.b)) <= 1 /\ AbsI(e.hi - CosMax(e.a, e.b)) <= 1
      \* encloses the values at (recorded) sample points between the grid points as well
      [] e.op = "cosat" -> e.within
      [] e.op = "lufou" ->
            LET t == 2 + SumAbs(e.A) IN
            /\ \A x \in Steps(e.a, e.b) : LET y == Value(e.A, e.P, x) IN e.lo - t <= y /\ y <= e.hi + t
            /\ e.lo >= Least(e.A, e.P, e.a, e.b) - t /\ e.hi <= Greatest(e.A, e.P, e.a, e.b) + t
      [] e.op = "fou" -> AbsI(e.res - Series(e.c, e.d, e.x)) <= 2 + SumAbs(e.c) + SumAbs(e.d)
      [] OTHER -> FALSE
Step == /\ l <= Len(Hist[h].ev)
        /\ Ok(E) = TRUE
        /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
