----------------------------- MODULE WordsTrace -----------------------------
(* Recorded results, in batches, of the bit utilities (C11), of the floating  *)
(* point decomposition (C12), of the Morton comparators (C13, C14) and of the *)
(* power-of-two intervals and cell splits (C15).                              *)
EXTENDS Morton, Floats, TraceBase
VARIABLES h, l
vars == <<h, l>>
Init == h \in 1..Len(Hist) /\ l = 1
E == Hist[h].ev[l]

(* ---- C11 ---- *)
Typed(sg, r) ==
    /\ r.nlz = Nlz(r.x)
    /\ IF MostNeg(sg, r.x) THEN TRUE ELSE
       /\ IsZero(r.x) \/ r.log = Log2Mod(sg, r.x)
       /\ FloorFits(sg, r.x) => r.fl = FloorPow2(sg, r.x)
       /\ (CeilFits(sg, r.x) \/ IsNeg(sg, r.x)) => r.ce = CeilPow2(sg, r.x)
Raw(r) == /\ r.nlz = Nlz(r.x) /\ r.fl = FloorU(r.x) /\ (CeilFits(FALSE, r.x) => r.ce = CeilU(r.x))

(* ---- C12 ---- *)
Float(F, r) ==
    /\ r.e = Exp(F, r.x) /\ r.s = Sign(F, r.x)
    /\ r.m = Zeros(Width(F) - F.mb) \o Man(F, r.x)
    /\ IF IsNaN(F, r.x) THEN IsNaN(F, r.back) ELSE r.back = r.x
    /\ IsNaN(F, r.x) \/ r.int = r.x
    /\ IsNormal(F, r.x) => r.formula
    /\ r.class = (CASE IsNaN(F, r.x) -> "nan" [] IsInf(F, r.x) -> "inf" [] IsFZero(F, r.x) -> "zero" [] IsNormal(F, r.x) -> "normal" [] OTHER -> "sub")
Ones(F, lo, hi) == [i \in 1..Width(F) |-> IF i >= lo /\ i <= hi THEN 1 ELSE 0]
Consts(F, c) ==
    /\ c.bits = Width(F) /\ c.mb = F.mb /\ c.eb = F.eb /\ c.bias = Bias(F) /\ c.emin = EMin(F) /\ c.emax = EMax(F)
    /\ c.sign = Ones(F, 1, 1) /\ c.exp = Ones(F, 2, 1 + F.eb) /\ c.man = Ones(F, 2 + F.eb, Width(F)) /\ c.impl = Ones(F, 1 + F.eb, 1 + F.eb)

(* ---- C13, C14 ---- *)
Cmp(sg, r) ==
    /\ r.lt = MortonLess(sg, r.a, r.b) /\ r.gt = MortonLess(sg, r.b, r.a)
    /\ r.dist = Distance(r.a, r.b)
    /\ \A d \in DOMAIN r.msb : r.msb[d] = (FirstOne(r.a[d]) > FirstOne(r.b[d]))
FCmp(F, r) == /\ r.lt = FMortonLess(F, r.a, r.b) /\ r.gt = FMortonLess(F, r.b, r.a) /\ r.dist = FDistance(F, r.a, r.b)

(* ---- C15 ---- *)
IntSplit(sg, r) ==
    /\ \A d \in DOMAIN r.a : LET B == BlockS(sg, r.a[d], r.b[d]) IN
          r.iv[d] = [low |-> B.low, mid |-> B.mid, upp |-> B.upp, level |-> B.level]
    /\ [low |-> r.low, mid |-> r.mid, upp |-> r.upp] = Split(sg, r.a, r.b)
FloatSplit(F, r) ==
    LET Same(u, v) == \A d \in DOMAIN u : FSame(F, u[d], v[d])
        S == FSplit(F, r.a, r.b)
    IN  /\ \A d \in DOMAIN r.a : LET B == FBlockS(F, r.a[d], r.b[d]) IN
              /\ Same(<<r.iv[d].low, r.iv[d].mid, r.iv[d].upp>>, <<B.low, B.mid, B.upp>>)
              /\ r.a[d] # r.b[d] => r.iv[d].level = B.level
        /\ Same(r.low, S.low) /\ Same(r.upp, S.upp)
        /\ r.a = r.b \/ Same(r.mid, S.mid)

Step ==
    /\ l <= Len(Hist[h].ev)
    /\ CASE E.op = "typed"  -> (\A i \in DOMAIN E.rs : Len(E.rs[i].x) = E.w /\ Typed(E.sg, E.rs[i])) = TRUE
         [] E.op = "raw"    -> (\A i \in DOMAIN E.rs : Len(E.rs[i].x) = E.w /\ Raw(E.rs[i])) = TRUE
         [] E.op = "float"  -> (\A i \in DOMAIN E.rs : Float(Fmt(E.w), E.rs[i])) = TRUE
         [] E.op = "consts" -> Consts(Fmt(E.w), E.c)
         [] E.op = "cmp"    -> (\A i \in DOMAIN E.rs : Cmp(E.sg, E.rs[i])) = TRUE
         [] E.op = "fcmp"   -> (\A i \in DOMAIN E.rs : FCmp(Fmt(E.w), E.rs[i])) = TRUE
         [] E.op = "split"  -> (\A i \in DOMAIN E.rs : IntSplit(E.sg, E.rs[i])) = TRUE
         [] E.op = "fsplit" -> (\A i \in DOMAIN E.rs : FloatSplit(Fmt(E.w), E.rs[i])) = TRUE
         [] OTHER -> FALSE
    /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
