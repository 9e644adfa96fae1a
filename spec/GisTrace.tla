------------------------------ MODULE GisTrace ------------------------------
(* Recorded conversions (C30).                                                *)
EXTENDS Gis, TraceBase
VARIABLES h, l
vars == <<h, l>>
Init == h \in 1..Len(Hist) /\ l = 1
E == Hist[h].ev[l]
Ok(e) ==
    CASE e.op = "per" -> AbsI(e.lat - PerLat(e.k)) <= TolPer /\ AbsI(e.lon - PerLon(e.k)) <= TolPer
      [] e.op = "xy" -> LocalOk(e.nlon, PerLon(e.k), e.x) /\ LocalOk(e.nlat, PerLat(e.k), e.y)
      [] e.op = "ll" -> BackOk(e.dlon, PerLon(e.k), 10 * e.x, 20) /\ BackOk(e.dlat, PerLat(e.k), 10 * e.y, 10)
      [] e.op = "trip" -> AbsI(e.dlon) <= 6 /\ AbsI(e.dlat) <= 3
      [] e.op = "ecef" -> EcefOk(e.k, e.m, e.alt, e.x, e.y, e.z)
      [] OTHER -> FALSE
Step == l <= Len(Hist[h].ev) /\ Ok(E) = TRUE /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
