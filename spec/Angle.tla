------------------------------- MODULE Angle -------------------------------
(* Cosine and sine of integer angles by a table of whole degrees.             *)
(* Angles are integers in hundredths of a degree; values in millionths.       *)
EXTENDS Integers, Sequences
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
Turn == 36000
One == 1000000
CosDeg == <<1000000, 999848, 999391, 998630, 997564, 996195, 994522, 992546,
             990268, 987688, 984808, 981627, 978148, 974370, 970296, 965926,
             961262, 956305, 951057, 945519, 939693, 933580, 927184, 920505,
             913545, 906308, 898794, 891007, 882948, 874620, 866025, 857167,
             848048, 838671, 829038, 819152, 809017, 798636, 788011, 777146,
             766044, 754710, 743145, 731354, 719340, 707107, 694658, 681998,
             669131, 656059, 642788, 629320, 615661, 601815, 587785, 573576,
             559193, 544639, 529919, 515038, 500000, 484810, 469472, 453990,
             438371, 422618, 406737, 390731, 374607, 358368, 342020, 325568,
             309017, 292372, 275637, 258819, 241922, 224951, 207912, 190809,
             173648, 156434, 139173, 121869, 104528, 87156, 69756, 52336, 34899,
             17452, 0>>        \* cos of 0, 1, ... 90 degrees
(* first quadrant, between whole degrees the parabola with the second derivative of the cosine: off by about 2e-6 *)
CosQ(a) == LET d == a \div 100
               t == a % 100 IN
           IF d = 90 THEN CosDeg[91]
           ELSE CosDeg[d + 1] + ((t * (CosDeg[d + 2] - CosDeg[d + 1])) \div 100)
                + ((1523 * (((CosDeg[d + 1] \div 1000) * (t * (100 - t))) \div 1000)) \div 100000)
CosA(a) == LET m == a % Turn
               h == IF m > 18000 THEN Turn - m ELSE m
           IN  IF h <= 9000 THEN CosQ(h) ELSE 0 - CosQ(18000 - h)
SinA(a) == CosA(a - 9000)
(* an angle in microradians: 174.5329 per hundredth of a degree *)
Micro(a) == a * 174 + ((a * 5329) \div 10000)
(* representative of an angle in ]-180, 180] degrees *)
Wrap(a) == LET m == a % Turn IN IF m > 18000 THEN m - Turn ELSE m

=============================================================================
