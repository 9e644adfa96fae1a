---------------------------- MODULE ParamMapTrace ----------------------------
(* Recorded histories of rofl::ParamMap (C08, C09, C10).                      *)
EXTENDS ParamMap, Json, IOUtils
VARIABLES h, l
vars == <<table, h, l>>
Hist == ndJsonDeserialize(IOEnv.TRACE)
Init == h \in 1..Len(Hist) /\ l = 1 /\ table = <<>>
E == Hist[h].ev[l]

(* the content seen through getParam<string> on a copy, for every name of the case *)
Seen(t, o) == \A i \in DOMAIN o : o[i].has = (o[i].name \in DOMAIN t)
                                /\ (o[i].has => o[i].val = t[o[i].name])

Step ==
    /\ l <= Len(Hist[h].ev)
    /\ CASE E.op = "read"  -> E.ret = TRUE /\ Read(E.lines)
         [] E.op = "argv"  -> E.ret = TRUE /\ Argv(E.args)
         [] E.op = "set"   -> SetText(E.name, E.text)
         [] E.op = "clear" -> Clear
         [] E.op = "get"   -> Get(E.kind, E.name, E.dflt, E.prev, E.ret, E.val)
         [] E.op = "range" -> GetRange(E.kind, E.name, E.n, E.dtext, E.dflt, E.delim, E.ret, E.vals) /\ E.guard = TRUE
         [] E.op = "ins"   -> GetInsert(E.kind, E.name, E.delim, E.ret, E.vals)
         [] E.op = "tilde" -> Tilde(E.home)
         \* listing through a stream, with or without prefix, or through a file
         [] E.op = "write" -> E.ret = TRUE /\ IsListing(table, E.names, E.lines, E.prefix) /\ UNCHANGED table
         \* write to a file (or stream), read it in a new ParamMap, list that one
         [] E.op = "trip"  -> E.ret = TRUE /\ IsListing(table, E.names, E.lines, "") /\ UNCHANGED table
         \* a file that cannot be opened
         [] E.op = "badread"  -> E.ret = FALSE /\ UNCHANGED table
         [] E.op = "badwrite" -> E.ret = FALSE /\ UNCHANGED table
         [] OTHER -> FALSE
    /\ Seen(table', E.seen)
    /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
