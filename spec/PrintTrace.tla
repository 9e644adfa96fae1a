----------------------------- MODULE PrintTrace -----------------------------
(* Recorded texts (C35). *)
EXTENDS Print, TraceBase
VARIABLES h, l
vars == <<ls, hp, h, l>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ Start
E == Hist[h].ev[l]
Shown(e) ==
    CASE e.op \in {"insert", "remove", "push", "popTop", "popBottom"} -> TRUE
      [] e.op = "labels" -> e.text = LabelText
      [] e.op = "rows" -> e.clean /\ Rows(e.rows)
      [] e.op = "index" -> e.text = IndexText(e.v)
      [] e.op = "interval" -> e.text = IntervalText(e.p, e.q)
      [] e.op = "item" -> e.text = ItemText(e.v, e.id)
      [] e.op = "var" -> e.text = VarText(e.file, e.line, e.names, e.vals) /\ e.other = ""
      [] e.op = "msg" -> e.text = Where(e.file, e.line) \o Join(Texts(e.vals), " ") \o "\n" /\ e.other = ""
      [] OTHER -> FALSE
Step == /\ l <= Len(Hist[h].ev)
        /\ (Shown(E)) = TRUE
        /\ Change(E)
        /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
