------------------------------- MODULE Trig -------------------------------
(* Fixed-point cosine and sine of whole degrees (unit 1/S); CosI and SinI of  *)
(* multiples of 15 degrees.                                                   *)
EXTENDS Integers, Sequences
S == 32768
CosTable == <<32768, 32763, 32748, 32723, 32688, 32643, 32588, 32524, 32449, 32365, 32270, 32166, 32052,
              31928, 31795, 31651, 31499, 31336, 31164, 30983, 30792, 30592, 30382, 30163, 29935, 29698,
              29452, 29197, 28932, 28660, 28378, 28088, 27789, 27482, 27166, 26842, 26510, 26170, 25822,
              25466, 25102, 24730, 24351, 23965, 23571, 23170, 22763, 22348, 21926, 21498, 21063, 20622,
              20174, 19720, 19261, 18795, 18324, 17847, 17364, 16877, 16384, 15886, 15384, 14876, 14365,
              13848, 13328, 12803, 12275, 11743, 11207, 10668, 10126, 9580, 9032, 8481, 7927, 7371,
              6813, 6252, 5690, 5126, 4560, 3993, 3425, 2856, 2286, 1715, 1144, 572, 0>>       \* cos of 0, 1, ... 90 degrees
CosD(k) == LET m == k % 360
               a == IF m > 180 THEN 360 - m ELSE m
           IN  IF a <= 90 THEN CosTable[a + 1] ELSE 0 - CosTable[180 - a + 1]
SinD(k) == CosD(k - 90)
CosI(k) == CosD(15 * (k % 24))
SinI(k) == CosI(k - 6)
Mul(a, b) == (a * b + (S \div 2)) \div S
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
=============================================================================
