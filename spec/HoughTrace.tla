----------------------------- MODULE HoughTrace -----------------------------
(* Recorded histories of one HoughPlaneDetector (C18, C19) or                 *)
(* HoughLineDetector (C20) object.  v bounds the votes of each cell, ht/hs    *)
(* are the tables read back from the object, win/rwin the peak windows.       *)
EXTENDS Hough, TraceBase
VARIABLES g, v, ht, hs, win, rwin, h, l
vars == <<g, v, ht, hs, win, rwin, h, l>>
Ones == [d \in 1..Hist[h].cfg.na |-> 1]
NoGrid == [anum |-> <<>>, amin |-> <<>>, astep |-> <<>>, rnum |-> 0, rmin |-> 0, rstep |-> 1]
Init == /\ h \in 1..Len(Hist) /\ l = 1 /\ g = NoGrid /\ v = <<>> /\ ht = <<>> /\ hs = <<>>
        /\ win = Ones /\ rwin = 1
E == Hist[h].ev[l]
Checks == Hist[h].cfg.votes

Perm(s, set) == Len(s) = Cardinality(set) /\ Range(s) = set
(* best first with respect to a rank *)
Descending(s, rank(_)) == \A i \in 1..(Len(s) - 1) : rank(s[i]) >= rank(s[i + 1])

(* parameters read back in fixed point: normal in units 1/S, offset in units 1/16 *)
NormalOk(t, n) == \A d \in DOMAIN n : AbsI(n[d] - Normal(g, t)[d]) <= 3
ParamOk(c, p) == /\ NormalOk(SubSeq(c, 1, Len(c) - 1), SubSeq(p, 1, Len(p) - 1))
                 /\ AbsI(p[Len(p)] + 16 * (g.rmin + g.rstep * c[Len(c)])) <= 1
Head1(c) == SubSeq(c, 1, Len(c) - 1)
HsAt(t) == hs[RasterPos(Dirs(g), t) + 1]
VotesAt(c) == Votes(g, ht, c)

(* answers of the find functions; they follow a dump.  Evaluated as a value. *)
Answer(e) ==
    CASE e.op = "specmax" -> Perm(e.res, SpectrumMaxima(g, hs, win)) /\ Descending(e.res, HsAt)
      [] e.op = "normals" -> (* one normal per maximum, best first *)
            LET M == SpectrumMaxima(g, hs, win) IN
            /\ Len(e.res) = Cardinality(M)
            /\ \A t \in M : \E i \in DOMAIN e.res : NormalOk(t, e.res[i])
            /\ \A i \in DOMAIN e.res : \E t \in M : NormalOk(t, e.res[i])
            /\ \A i \in 1..(Len(e.res) - 1) :
                  \E t, u \in M : NormalOk(t, e.res[i]) /\ NormalOk(u, e.res[i + 1]) /\ HsAt(t) >= HsAt(u)
      [] e.op = "angles" -> (* line detector: angles of the maxima, in hundredths of a degree *)
            LET M == SpectrumMaxima(g, hs, win)
                Ok(t, a) == AbsI(a - 100 * Angles(g, t)[1]) <= 2
            IN  /\ Len(e.res) = Cardinality(M)
                /\ \A t \in M : \E i \in DOMAIN e.res : Ok(t, e.res[i])
                /\ \A i \in DOMAIN e.res : \E t \in M : Ok(t, e.res[i])
                /\ \A i \in 1..(Len(e.res) - 1) :
                      \E t, u \in M : Ok(t, e.res[i]) /\ Ok(u, e.res[i + 1]) /\ HsAt(t) >= HsAt(u)
      [] e.op = "parallel" ->
            /\ Perm(e.res, {Append(e.t, r) : r \in RhoMaxima(g, ht, e.t, rwin)})
            /\ Descending(e.res, VotesAt)
            /\ Len(e.par) = Len(e.res) /\ \A i \in DOMAIN e.par : ParamOk(e.res[i], e.par[i])
      [] e.op = "planes" ->
            /\ Perm(e.res, Cells(g, ht, hs, win, rwin))
            /\ Descending(e.res, VotesAt)
            /\ Len(e.par) = Len(e.res)
            /\ \A i \in DOMAIN e.par : ParamOk(e.res[i], e.par[i])
      [] e.op = "lines" -> (* directions best first, in a direction distances best first *)
            /\ Perm(e.res, Cells(g, ht, hs, win, rwin))
            /\ \A i \in 1..(Len(e.res) - 1) :
                  LET a == e.res[i]
                      b == e.res[i + 1]
                  IN  IF Head1(a) = Head1(b) THEN VotesAt(a) >= VotesAt(b) ELSE HsAt(Head1(a)) >= HsAt(Head1(b))
            /\ Len(e.par) = Len(e.res)
            /\ \A i \in DOMAIN e.par : ParamOk(e.res[i], e.par[i])
      [] e.op = "cell" -> ParamOk(e.c, e.par) /\ ParamOk(e.c, e.par2)
      [] OTHER -> FALSE

Grid(e) == [anum |-> e.anum, amin |-> e.amin, astep |-> e.astep, rnum |-> e.rnum, rmin |-> e.rmin, rstep |-> e.rstep]

Step ==
    /\ l <= Len(Hist[h].ev)
    /\ CASE E.op = "init" -> g' = Grid(E) /\ v' = NoVotes(g') /\ E.get = TRUE /\ UNCHANGED <<ht, hs>>
                             /\ win' = (IF E.via = "ctor" THEN Ones ELSE win) /\ rwin' = (IF E.via = "ctor" THEN 1 ELSE rwin)
         [] E.op = "zero" -> v' = NoVotes(g) /\ UNCHANGED <<g, ht, hs, win, rwin>>
         [] E.op = "insert" -> (* the far points vote nowhere *)
                               ("far" \in DOMAIN E => \A i \in DOMAIN E.far : FarAway(g, SubSeq(E.far[i], 1, Len(E.far[i]) - 1))) = TRUE /\ v' = AddVotes(g, IF E.via = "it" THEN NoVotes(g) ELSE v, E.pts) /\ UNCHANGED <<g, ht, hs, win, rwin>>
         [] E.op = "window" -> win' = E.w /\ rwin' = E.r /\ UNCHANGED <<g, v, ht, hs>>
         [] E.op = "dump" -> /\ (Checks => (Within(E.ht, v) /\ E.hs = Spectrum(E.ht))) = TRUE
                             /\ (Checks => \A k \in DOMAIN E.nor : NormalOk(DirAt(g, k - 1), E.nor[k])) = TRUE
                             /\ ht' = E.ht /\ hs' = E.hs /\ v' = Exact(E.ht) /\ UNCHANGED <<g, win, rwin>>
         [] OTHER -> Answer(E) = TRUE /\ UNCHANGED <<g, v, ht, hs, win, rwin>>
    /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
