------------------------------ MODULE DirTrace ------------------------------
(* Recorded listings (C26).  cfg.id[b][n] is the rank of the string of name n *)
(* under spelling b of directory cfg.dirof[b].                                *)
EXTENDS Dir, TraceBase
VARIABLES h, l, fs, list
vars == <<h, l, fs, list>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ fs = << >> /\ list = <<>>
E == Hist[h].ev[l]
Cfg == Hist[h].cfg
Step == /\ l <= Len(Hist[h].ev)
        /\ CASE E.op = "mk" -> fs' = Make(fs, E.d, E.n, E.k) /\ UNCHANGED list
             [] E.op = "rm" -> fs' = Remove(fs, E.d, E.n) /\ UNCHANGED list
             [] E.op = "set" -> list' = E.res /\ UNCHANGED fs
             [] E.op = "list" -> /\ Listed(list, {Cfg.id[E.b][n] : n \in Files(fs, Cfg.dirof[E.b])}, E.res) = TRUE
                                 /\ list' = E.res /\ UNCHANGED fs
             [] OTHER -> FALSE /\ UNCHANGED <<fs, list>>
        /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
