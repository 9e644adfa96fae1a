------------------------------ MODULE HoughMC ------------------------------
(* Histories of a small detector (lines: na = 1, planes: na = 2) with right   *)
(* angles only, where every projection is exact.                              *)
EXTENDS Hough, TLC, Json
CONSTANTS NA, MaxOps, Sample
VARIABLES v, pts, hist
vars == <<v, pts, hist>>
G == IF NA = 1
     THEN [anum |-> <<4>>, amin |-> <<0>>, astep |-> <<90>>, rnum |-> 3, rmin |-> 0 - 2, rstep |-> 2]
     ELSE [anum |-> <<2, 2>>, amin |-> <<0, 0>>, astep |-> <<90, 90>>, rnum |-> 3, rmin |-> 0 - 2, rstep |-> 2]
Points == IF NA = 1 THEN {<<1, -1>>, <<-1, 3>>, <<3, 1>>, <<-3, 0>>, <<0, 0>>}
          ELSE {<<1, -1, 3>>, <<-1, 3, 1>>, <<3, 1, -1>>, <<-3, 5, 1>>, <<0, 0, 0>>}
Sets == {<<a, b>> : a, b \in Points} \cup {<<a>> : a \in Points}
(* all right angles: no ambiguity *)
XBins(ps, t) == [i \in DOMAIN ps |-> (Dot(Normal(G, t), ps[i]) - S * G.rmin) \div (S * G.rstep)]
XAdd(x, ps) == [k \in 1..DirNum(G) |-> LET b == XBins(ps, DirAt(G, k - 1)) IN
                [r \in 1..G.rnum |-> x[k][r] + Cardinality({i \in DOMAIN b : b[i] = r - 1})]]
XZero == [k \in 1..DirNum(G) |-> [r \in 1..G.rnum |-> 0]]
Init == v = XZero /\ pts = <<>> /\ hist = <<>>
Do(o) == hist' = Append(hist, o)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E s \in Sets : v' = XAdd(v, s) /\ pts' = pts \o s /\ Do([op |-> "insert", via |-> "vec", pts |-> s])
           \/ \E s \in Sets : v' = XAdd(XZero, s) /\ pts' = s /\ Do([op |-> "insert", via |-> "it", pts |-> s])
           \/ v' = XZero /\ pts' = <<>> /\ Do([op |-> "zero"])
        /\ (Len(hist') = MaxOps /\ (SumSeq([i \in 1..Len(pts') |-> Dot(pts'[i], [d \in DOMAIN pts'[i] |-> d + i])]) % Sample = 0)
            => PrintT("@@" \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

(* the votes are those of all points since the last reset, whatever the batches *)
AccumInv == v = XAdd(XZero, pts)
(* every point votes at most once per direction, exactly once when in range *)
OnceInv == \A k \in DOMAIN v :
    SumSeq(v[k]) = Cardinality({i \in DOMAIN pts : XBins(pts, DirAt(G, k - 1))[i] \in 0..(G.rnum - 1)})
(* the tolerant votes used on recordings contain the exact ones *)
TolerantInv == Within(v, AddVotes(G, NoVotes(G), pts))
(* the spectrum lies between the number of votes and its square *)
SpectrumInv == \A k \in DOMAIN v : LET n == SumSeq(v[k]) IN Spectrum(v)[k] >= n /\ Spectrum(v)[k] <= n * n
(* if all points share one range cell of a direction, that cell has all the votes and no
   direction has a larger spectrum *)
CoplanarInv == \A k \in DOMAIN v : \A r \in 1..G.rnum :
    (Len(pts) > 0 /\ \A i \in DOMAIN pts : XBins(pts, DirAt(G, k - 1))[i] = r - 1)
        => /\ v[k][r] = Len(pts)
           /\ \A m \in DOMAIN v : Spectrum(v)[m] <= Spectrum(v)[k]
(* reported cells: distinct directions are outside each other's window, and each reported
   direction strictly dominates its window *)
ExtractInv ==
    LET w == [d \in 1..NA |-> 1]
        M == SpectrumMaxima(G, Spectrum(v), w)
    IN  \A s, t \in M : s = t \/ \E d \in DOMAIN s : AbsI(s[d] - t[d]) > 1
=============================================================================
