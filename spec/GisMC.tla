------------------------------- MODULE GisMC -------------------------------
(* Latitudes and longitudes on a grid (quarters of a degree).                            *)
EXTENDS Gis, TLC, Json
CONSTANTS StepLat, StepLon
VARIABLES lat, lon, alt
vars == <<lat, lon, alt>>
Init == lat = 1000 /\ lon = 0 /\ alt = 0
Next == \/ lat = 1000 /\ lat' \in {StepLat * i : i \in 0..(720 \div StepLat)} /\ UNCHANGED <<lon, alt>>
        \/ lat < 1000 /\ lon = 0 /\ lon' \in {StepLon * i : i \in 1..(1440 \div StepLon)} /\ alt' \in {0, 8000} /\ UNCHANGED lat
           /\ PrintT("@@" \o ToJson([k |-> lat - 360, m |-> lon' - 720, alt |-> alt']))
Spec == Init /\ [][Next]_vars
K == lat - 360
M == lon - 720
MulInv == lat = 1000 => \A a \in {7, 1114151, 6378137, -6378137} : \A c \in {0, 1, 999999, 1000000, -500000, 123456} :
    AbsI(Mul(a, c) - (((a \div 10000) * c) \div 100)) <= 10005
(* symmetric about the equator; a degree of longitude vanishes at the poles and equals the equator's arc at 0 *)
SymInv == lat < 1000 => /\ PerLat(K) = PerLat(0 - K) /\ PerLon(K) = PerLon(0 - K)
                        /\ PerLat(K) >= 1105000 /\ PerLat(K) <= 1117500
                        /\ PerLon(K) >= 0 - 4 /\ PerLon(K) <= 1113210
                        /\ (AbsI(K) = 360 => AbsI(PerLon(K)) <= 4)
                        /\ (K = 0 => AbsI(PerLon(K) - 1113195) <= 15)      \* pi a / 180
                        /\ (K > 0 => PerLon(K) < PerLon(K - 1))
(* z is odd in the latitude; on the equator and at the poles the coordinates are the semi-axes; a degree of ECEF arc is PerLat *)
EcefInv == lat < 1000 =>
    /\ AbsI(EcefZ(K, alt) + EcefZ(0 - K, alt)) <= 3
    /\ (K = 360 => AbsI(EcefZ(K, 0) - 6356752) <= 6)
    /\ (K = 0 => EcefZ(K, alt) = 0 /\ AbsI(EcefX(0, 0, alt) - 6378137 - alt) <= 2)
    /\ AbsI(EcefX(K, M, alt) - EcefX(K, 0 - M, alt)) <= 3 /\ AbsI(EcefY(K, M, alt) + EcefY(K, 0 - M, alt)) <= 3
    /\ AbsI(EcefX(K, M + 360, alt) + EcefY(K, M, alt)) <= 3
(* the ellipsoid equation (x/a)^2 + (y/a)^2 + (z/b)^2 = 1, in 10^-4 *)
Ratio(v, w) == (v * 100) \div (w \div 100)
EllipInv == (lat < 1000 /\ alt = 0) =>
    LET x == Ratio(EcefX(K, M, 0), 6378137)
        y == Ratio(EcefY(K, M, 0), 6378137)
        z == Ratio(EcefZ(K, 0), 6356752)
    IN  AbsI(((x * x) + (y * y) + (z * z)) \div 10000 - 10000) <= 6
=============================================================================
