---------------------------- MODULE LabelSetTrace ----------------------------
EXTENDS LabelSet, TraceBase
VARIABLES h, l
vars == <<env, h, l>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ env = [s \in {"a", "b", "c"} |-> {}]
E == Hist[h].ev[l]
(* every slot is observed after every operation, so that operands are seen unchanged *)
Obs(v, o) ==
    \A s \in {"a", "b", "c"} :
        /\ IsSortedEnum(o[s].seq, v[s])
        /\ o[s].size = Cardinality(v[s]) /\ o[s].empty = (v[s] = {})
        /\ \A i \in DOMAIN o.probe : o[s].inside[i] = (o.probe[i] \in v[s])
EqObs(v, o) == \A i \in DOMAIN o.eq : LET q == o.eq[i] IN
                  /\ q.eq = (v[q.s] = v[q.t]) /\ q.ne = (v[q.s] # v[q.t])
Step ==
    /\ l <= Len(Hist[h].ev)
    /\ CASE E.op = "range"  -> Set(E.s, Range(E.xs))
         [] E.op = "copy"   -> Set(E.s, env[E.a])
         [] E.op = "insert" -> E.res = InsertR(E.s, E.x) /\ Insert(E.s, E.x)
         [] E.op = "remove" -> Remove(E.s, E.x)
         [] E.op = "clear"  -> Clear(E.s)
         [] E.op = "union"  -> Union(E.s, E.a, E.b)
         [] E.op = "inter"  -> Inter(E.s, E.a, E.b)
         [] E.op = "diff"   -> Diff(E.s, E.a, E.b)
         [] E.op = "union1" -> Union1(E.s, E.a, E.x)
         [] E.op = "diff1"  -> Diff1(E.s, E.a, E.x)
         [] OTHER -> FALSE
    /\ Obs(env', E.obs) /\ EqObs(env', E.obs)
    /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
