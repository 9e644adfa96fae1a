-------------------------------- MODULE Gis --------------------------------
(* Geodetic conversions (rofl/geometry/gis.h) on the WGS84 ellipsoid.         *)
(* Latitudes and longitudes are in quarters of a degree; lengths are in       *)
(* decimetres (local) or metres (ECEF).                                       *)
EXTENDS Angle
(* a * c / One for |a| up to 2 * 10^7, by pairs of decimal digits of c *)
MulP(a, c) == ((a * (c \div 10000)) \div 100) + ((a * ((c \div 100) % 100)) \div 10000) + ((a * (c % 100)) \div 1000000)
Mul(a, c) == IF c < 0 THEN 0 - MulP(a, 0 - c) ELSE MulP(a, c)
Deg(k) == 25 * k
(* length of a degree of latitude and of longitude at latitude k, in decimetres *)
PerLat(k) == 1111321 - Mul(5661, CosA(Deg(2 * k))) + Mul(12, CosA(Deg(4 * k)))
PerLon(k) == Mul(1114151, CosA(Deg(k))) - Mul(946, CosA(Deg(3 * k))) + Mul(1, CosA(Deg(5 * k)))
TolPer == 7
(* local coordinates: n/64 degrees from the origin *)
LocalOk(n, per, x) == AbsI(64 * x - n * per) <= AbsI(n) * TolPer + 64 * 4 + (AbsI(n) \div 16)
(* and back: d is the difference in 10^-5 degrees, x the distance *)
Len5(d, per) == ((per * (AbsI(d) \div 1000)) \div 100) + ((per * (AbsI(d) % 1000)) \div 100000)
SignLen5(d, per) == IF d < 0 THEN 0 - Len5(d, per) ELSE Len5(d, per)
BackOk(d, per, x, ulp) == AbsI(SignLen5(d, per) - x) <= 40 + (AbsI(x) \div 20000) + ulp

(* ---- earth-centred earth-fixed coordinates, metres ---- *)
S2(k) == Mul(SinA(Deg(k)), SinA(Deg(k)))                      \* sin^2, in millionths
Radius(k) == 6378137 + Mul(21349, S2(k)) + Mul(107, Mul(S2(k), S2(k)))     \* prime vertical
(* (b/a)^2 N = N - e2 N *)
RadiusZ(k) == Radius(k) - Mul(Radius(k), 6694) - (Radius(k) \div 2631501)
EcefX(k, m, alt) == Mul(Mul(Radius(k) + alt, CosA(Deg(k))), CosA(Deg(m)))
EcefY(k, m, alt) == Mul(Mul(Radius(k) + alt, CosA(Deg(k))), SinA(Deg(m)))
EcefZ(k, alt) == Mul(RadiusZ(k) + alt, SinA(Deg(k)))
TolEcef == 24
EcefOk(k, m, alt, x, y, z) == AbsI(x - EcefX(k, m, alt)) <= TolEcef /\ AbsI(y - EcefY(k, m, alt)) <= TolEcef /\ AbsI(z - EcefZ(k, alt)) <= TolEcef
=============================================================================
