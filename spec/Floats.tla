------------------------------- MODULE Floats -------------------------------
(* IEEE 754 words as bit sequences <<sign>> \o exponent field \o mantissa,    *)
(* for any widths (eb exponent bits, mb mantissa bits): decomposition,        *)
(* composition, order, the most significant differing bit of two's complement *)
(* binary expansions, Morton order and power-of-two intervals.                *)
EXTENDS Bits

Fmt(w) == CASE w = 32 -> [eb |-> 8, mb |-> 23] [] w = 64 -> [eb |-> 11, mb |-> 52]
RECURSIVE UInt(_, _), Two(_)
UInt(x, i) == IF i = 0 THEN 0 ELSE 2 * UInt(x, i - 1) + x[i]      \* at most 30 bits
Two(k) == IF k = 0 THEN 1 ELSE 2 * Two(k - 1)
Bias(F) == Two(F.eb - 1) - 1
Sign(F, x) == x[1] = 1
ExpF(F, x) == SubSeq(x, 2, 1 + F.eb)
Man(F, x)  == SubSeq(x, 2 + F.eb, 1 + F.eb + F.mb)
Exp(F, x)  == UInt(ExpF(F, x), F.eb) - Bias(F)
Width(F) == 1 + F.eb + F.mb
EMin(F) == 0 - Bias(F)                       \* exponent of zeros and subnormals
EMax(F) == Two(F.eb) - 1 - Bias(F)           \* exponent of infinities and NaN
IsFZero(F, x) == Exp(F, x) = EMin(F) /\ IsZero(Man(F, x))
IsNormal(F, x) == Exp(F, x) > EMin(F) /\ Exp(F, x) < EMax(F)
IsInf(F, x) == Exp(F, x) = EMax(F) /\ IsZero(Man(F, x))
IsNaN(F, x) == Exp(F, x) = EMax(F) /\ ~IsZero(Man(F, x))
RECURSIVE Field(_, _)
Field(n, k) == IF k = 0 THEN <<>> ELSE Append(Field(n \div 2, k - 1), n % 2)
Compose(F, m, e, s) == <<IF s THEN 1 ELSE 0>> \o Field(e + Bias(F), F.eb) \o m

(* ------------------------------------------------------- order of values *)
Mag(x) == [x EXCEPT ![1] = 0]                 \* magnitudes are ordered like their words
MagLess(x, y) == ULess(Mag(x), Mag(y))
FLess(F, x, y) == IF IsFZero(F, x) /\ IsFZero(F, y) THEN FALSE
                  ELSE IF Sign(F, x) # Sign(F, y) THEN Sign(F, x)
                  ELSE IF Sign(F, x) THEN MagLess(y, x) ELSE MagLess(x, y)
FLeq(F, x, y) == ~FLess(F, y, x)

(* -------------------------------------- most significant differing bit --- *)
(* Level of the most significant bit in which the infinite two's complement   *)
(* binary expansions of two numbers differ; NoLevel if they are equal, TopLevel *)
(* if their signs differ.  Zeros and normal numbers, no negative zero.        *)
NoLevel(F) == EMin(F) - F.mb - 2
TopLevel(F) == EMax(F)
(* the mantissa of a number just below x = 2^e (1.m), m # 0, cut to mb bits *)
Below(m) == LET k == LastOne(m) IN [i \in 1..Len(m) |-> IF i < k THEN m[i] ELSE IF i = k THEN 0 ELSE 1]
FirstNull(m) == IF \A i \in 1..Len(m) : m[i] = 1 THEN Len(m) + 1 ELSE CHOOSE i \in 1..Len(m) : m[i] = 0 /\ \A j \in 1..(i - 1) : m[j] = 1
Level(F, x, y) ==
    LET big == IF MagLess(x, y) THEN y ELSE x
        sml == IF MagLess(x, y) THEN x ELSE y
        e1 == Exp(F, big)  e2 == Exp(F, sml)
        m1 == Man(F, big)  m2 == Man(F, sml)
    IN  IF x = y THEN NoLevel(F)
        ELSE IF Sign(F, x) # Sign(F, y) THEN TopLevel(F)
        ELSE IF ~Sign(F, x)                                        \* both >= 0
        THEN IF e1 # e2 THEN e1 ELSE e1 - FirstDiff(m1, m2)
        ELSE IF e1 = e2                                            \* both < 0: bits of the values just below
        THEN IF IsZero(m2) THEN e1 ELSE e1 - FirstDiff(Below(m1), Below(m2))
        ELSE IF ~IsZero(m1) THEN e1
        ELSE IF e2 < e1 - 1 \/ IsZero(m2) THEN e1 - 1
        ELSE e2 - FirstNull(Below(m2))

(* Morton order: the first dimension with the greatest differing level decides *)
Best(F, a, b) == CHOOSE d \in DOMAIN a : /\ \A c \in DOMAIN a : Level(F, a[c], b[c]) <= Level(F, a[d], b[d])
                                         /\ \A c \in 1..(d - 1) : Level(F, a[c], b[c]) < Level(F, a[d], b[d])
FMortonLess(F, a, b) == LET d == Best(F, a, b) IN FLess(F, a[d], b[d])
FDistance(F, a, b) == LET d == Best(F, a, b)  v == Level(F, a[d], b[d]) IN IF v = NoLevel(F) THEN EMin(F) ELSE v

(* -------------------------------------------- power-of-two intervals ----- *)
(* magnitudes sml <= big of the same sign: the smallest block of numbers        *)
(* [k 2^l, (k+1) 2^l) containing both, cut at the precision of big              *)
FBlock(F, x, y) ==
    LET big == IF MagLess(x, y) THEN y ELSE x
        sml == IF MagLess(x, y) THEN x ELSE y
        e == Exp(F, big)   m == Man(F, big)
        same == Exp(F, sml) = e
        p == IF same THEN FirstDiff(Man(F, sml), m) ELSE 0          \* position of the splitting bit, 0: the implicit one
        s == Sign(F, big)
        low == IF p = 0 THEN Compose(F, Zeros(F.mb), EMin(F), s)
               ELSE Compose(F, [i \in 1..F.mb |-> IF i < p THEN m[i] ELSE 0], e, s)
        mid == IF p = 0 THEN Compose(F, Zeros(F.mb), e, s)
               ELSE Compose(F, [i \in 1..F.mb |-> IF i < p THEN m[i] ELSE IF i = p THEN 1 ELSE 0], e, s)
        upp == Compose(F, [i \in 1..F.mb |-> IF i < p THEN m[i] ELSE 1], e, s)
    IN  IF Mag(x) = Mag(y) THEN [low |-> x, mid |-> x, upp |-> x, level |-> EMin(F) - F.mb]
        ELSE [low |-> IF s THEN upp ELSE low, mid |-> mid, upp |-> IF s THEN low ELSE upp, level |-> e - p + 1]
(* numbers of different signs: the whole range, split at zero *)
FSame(F, x, y) == x = y \/ (IsFZero(F, x) /\ IsFZero(F, y))
Largest(F, s) == Compose(F, [i \in 1..F.mb |-> 1], EMax(F) - 1, s)
FBlockS(F, x, y) == IF Sign(F, x) # Sign(F, y)
    THEN [low |-> Largest(F, TRUE), mid |-> Zeros(Width(F)), upp |-> Largest(F, FALSE), level |-> EMax(F) + 1]
    ELSE FBlock(F, x, y)
FSplit(F, a, b) ==
    LET B == [d \in DOMAIN a |-> FBlockS(F, a[d], b[d])]
        s == CHOOSE d \in DOMAIN a : /\ \A c \in DOMAIN a : B[c].level <= B[d].level
                                     /\ \A c \in 1..(d - 1) : B[c].level < B[d].level
    IN  [low |-> [d \in DOMAIN a |-> B[d].low], upp |-> [d \in DOMAIN a |-> B[d].upp],
         mid |-> [d \in DOMAIN a |-> IF d = s THEN B[d].mid ELSE B[d].low], dim |-> s]
=============================================================================
