-------------------------- MODULE DisjointSetTrace --------------------------
EXTENDS DisjointSet, TraceBase
VARIABLES h, l
vars == <<n, rep, h, l>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ n = Hist[h].cfg.n /\ rep = [x \in 0..(Hist[h].cfg.n - 1) |-> x]
E == Hist[h].ev[l]
Size(x) == IF Valid(x) THEN Cardinality(Block(x)) ELSE 0
RepsOf(m, rp) == {rp[x] : x \in 0..(m - 1)}
Obs(m, rp, o) == /\ o.nodes = m /\ o.total = m /\ o.sets = Cardinality(RepsOf(m, rp))
                 /\ Len(o.parents) = Cardinality(RepsOf(m, rp)) /\ Range(o.parents) = RepsOf(m, rp)
(* full picture: find and size of every node *)
Full(e) == /\ Len(e.find) = n /\ \A x \in 0..(n - 1) : e.find[x + 1] = rep[x]
           /\ \A x \in 0..(n - 1) : e.size[x + 1] = Size(x)
Step ==
    /\ l <= Len(Hist[h].ev)
    /\ CASE E.op = "create" -> UNCHANGED dvars
         [] E.op = "init" -> InitSets(E.k)
         [] E.op = "make" -> MakeSet(E.res)
         [] E.op = "find" -> Find(E.x, E.res)
         [] E.op = "join" -> Join(E.x, E.y, E.res)
         [] E.op = "size" -> E.res = Size(E.x) /\ UNCHANGED dvars
         [] E.op = "full" -> Full(E) /\ UNCHANGED dvars
         [] OTHER -> FALSE
    /\ Obs(n', rep', E.obs)
    /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
