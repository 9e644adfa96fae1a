------------------------------- MODULE Hough -------------------------------
(* Hough transform and spectrum of rofl::HoughPlaneDetector and               *)
(* rofl::HoughLineDetector.  Angles are whole degrees, so that the         *)
(* normals have a known fixed-point value (unit S); coordinates, rhoMin and   *)
(* rhoRes are integers in a common length unit.                               *)
EXTENDS PeakFinder, Trig

(* a discretisation: dim/min/step of the angles (1 for lines, 2 for planes), then of rho *)
Angles(g, t) == [d \in DOMAIN t |-> g.amin[d] + t[d] * g.astep[d]]
Normal(g, t) ==
    LET a == Angles(g, t)
    IN  IF Len(t) = 1 THEN <<CosD(a[1]), SinD(a[1])>>
        ELSE <<Mul(CosD(a[1]), CosD(a[2])), Mul(CosD(a[1]), SinD(a[2])), SinD(a[1])>>
Dirs(g) == Mk([d \in DOMAIN g.anum |-> 0], g.anum)
DirAt(g, k) == RasterAt(Dirs(g), k)
DirNum(g) == Size(Dirs(g))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Dot(n, p) == SumSeq([d \in DOMAIN p |-> n[d] * p[d]])
(* error of the fixed point (and floating point) projection; none only where the
   angle is exactly zero in floating point too, not where min + i * step rounds,
   and where dividing by the resolution does not round *)
Err(g, t, p) == LET sum == 2 * SumSeq([d \in DOMAIN p |-> AbsI(p[d])])
                IN  IF g.rstep \in {1, 2, 4, 8, 16} THEN (IF \A d \in DOMAIN t : g.amin[d] = 0 /\ t[d] = 0 THEN 0 ELSE sum)
                    ELSE sum + 2

(* least and greatest range bin in which the projection of p may be *)
BinLo(g, t, p) == (Dot(Normal(g, t), p) - Err(g, t, p) - S * g.rmin) \div (S * g.rstep)
BinHi(g, t, p) == (Dot(Normal(g, t), p) + Err(g, t, p) - S * g.rmin) \div (S * g.rstep)
Bins(g, t, pts) == [i \in DOMAIN pts |-> <<BinLo(g, t, pts[i]), BinHi(g, t, pts[i])>>]

(* a point 2^e p with e >= 14 whose direction is not orthogonal to any normal: it is out of every range below 2^8 units *)
FarAway(g, p) == \A k \in 1..DirNum(g) : LET t == DirAt(g, k - 1) IN AbsI(Dot(Normal(g, t), p)) > S \div 30 + Err(g, t, p)

(* votes that certainly / possibly go to range bin k *)
Certain(b, k)  == Cardinality({i \in DOMAIN b : b[i][1] = k /\ b[i][2] = k})
Possible(b, k) == Cardinality({i \in DOMAIN b : b[i][1] <= k /\ k <= b[i][2]})

NoVotes(g) == [k \in 1..DirNum(g) |-> [r \in 1..g.rnum |-> <<0, 0>>]]
AddVotes(g, v, pts) ==
    [k \in 1..DirNum(g) |->
        LET b == Bins(g, DirAt(g, k - 1), pts)
        IN  [r \in 1..g.rnum |-> <<v[k][r][1] + Certain(b, r - 1), v[k][r][2] + Possible(b, r - 1)>>]]
Exact(ht) == [k \in DOMAIN ht |-> [r \in DOMAIN ht[k] |-> <<ht[k][r], ht[k][r]>>]]
Within(ht, v) == \A k \in DOMAIN v : \A r \in DOMAIN v[k] : v[k][r][1] <= ht[k][r] /\ ht[k][r] <= v[k][r][2]

Spectrum(ht) == [k \in DOMAIN ht |-> SumSeq([r \in DOMAIN ht[k] |-> ht[k][r] * ht[k][r]])]

(* extraction *)
RhoDom(g) == Mk(<<0>>, <<g.rnum>>)
SpectrumMaxima(g, hs, w) == Peaks(Dirs(g), w, hs, "greater", FALSE, 0)
RowOf(g, ht, t) == ht[RasterPos(Dirs(g), t) + 1]
RhoMaxima(g, ht, t, w) == {q[1] : q \in Peaks(RhoDom(g), <<w>>, RowOf(g, ht, t), "greater", FALSE, 0)}
Cells(g, ht, hs, w, rw) == UNION {{Append(t, r) : r \in RhoMaxima(g, ht, t, rw)} : t \in SpectrumMaxima(g, hs, w)}
Votes(g, ht, c) == RowOf(g, ht, SubSeq(c, 1, Len(c) - 1))[c[Len(c)] + 1]
=============================================================================
