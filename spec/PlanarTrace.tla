----------------------------- MODULE PlanarTrace -----------------------------
(* Recorded evaluations (C24).  Angles in units of 1/24000 of a turn.         *)
EXTENDS Planar, TraceBase
VARIABLES h, l
G == INSTANCE Angle
vars == <<h, l>>
Init == h \in 1..Len(Hist) /\ l = 1
E == Hist[h].ev[l]
N == 24000
(* distance of two angles on a circle of n units *)
Gap(n, a, b) == LET d == (a - b) % n IN IF d > n - d THEN n - d ELSE d
(* single precision far from 0: the three directions must be apart *)
Big(e) == LET m == {AbsI(e.a), AbsI(e.b), AbsI(e.e)} IN \E x \in m : x > 10 * N
Margin(e) == LET m == CHOOSE x \in {AbsI(e.a), AbsI(e.b), AbsI(e.e)} : \A y \in {AbsI(e.a), AbsI(e.b), AbsI(e.e)} : y <= x IN 5 + m \div 100000
Clear(e) == IF Big(e) THEN Gap(N, e.a, e.b) > Margin(e) /\ Gap(N, e.a, e.e) > Margin(e) /\ Gap(N, e.b, e.e) > Margin(e)
            ELSE Decided(N, e.a, e.b, e.e)
(* the image of p by an isometry with an angle in hundredths of a degree, in millionths *)
ImageG(e) == <<G!CosA(e.a) * e.p[1] - G!SinA(e.a) * e.p[2] + 1000000 * e.t[1], G!SinA(e.a) * e.p[1] + G!CosA(e.a) * e.p[2] + 1000000 * e.t[2]>>
Ok(e) ==
    CASE e.op = "norm" -> e.ge /\ e.lt /\ Gap(N, e.res, e.a) <= 2 + (IF e.via = 0 THEN AbsI(e.a) \div 500000 ELSE 0)
      [] e.op = "norm180" -> e.ge /\ e.lt /\ Gap(N \div 2, e.res, e.a) <= 2
      [] e.op = "inside" -> ((Clear(e) => e.res = InArc(N, e.a, e.b, e.e)) /\ e.res2 = e.res)
      [] e.op = "insideeq" -> Clear(e) => e.res = InArcEq(N, e.a, e.b, e.e)
      [] e.op = "ccw" -> e.res = Cross(e.p, e.q, e.r)
      [] e.op = "pose" -> LET m == Image(e.t, e.k, e.p) IN   \* recorded in 1/S
                             \A d \in 1..2 : AbsI(e.res[d] - m[d]) <= 8 + AbsI(e.p[1]) + AbsI(e.p[2]) /\ e.res2[d] = e.res[d]
      [] e.op = "poseg" -> LET m == ImageG(e) IN
                             \A d \in 1..2 : AbsI(e.res[d] - m[d]) <= 60 * (AbsI(e.p[1]) + AbsI(e.p[2]) + 1) /\ e.res2[d] = e.res[d]
      [] OTHER -> FALSE
Step == /\ l <= Len(Hist[h].ev)
        /\ Ok(E) = TRUE
        /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
