----------------------------- MODULE ParamMapMC -----------------------------
(* All interleavings of MaxLen source events over small alphabets of lines    *)
(* and arguments; last-writer-wins, idempotence of getParam and the           *)
(* write/read round trip as invariants of the specification.                  *)
EXTENDS ParamMap, Json
CONSTANT MaxLen
VARIABLE hist
Lines == {"a 1", "a 2 # c", "#a 3", "\t b  x\r", "b", "", "a# -4"}
Args == {<<"p", "-a", "5">>, <<"p", "-a", "-b", "7">>, <<"p", "-a", "-5">>, <<"p", "x", "-b">>, <<"p", "--a", "3", "-b", "--a">>}
Names == {"a", "b", "c"}
Init == table = <<>> /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Next ==
    /\ Len(hist) < MaxLen
    /\ \/ \E s \in Lines : Read(<<s>>) /\ Log([op |-> "read", lines |-> <<s>>])
       \/ \E g \in Args : Argv(g) /\ Log([op |-> "argv", args |-> g])
       \/ \E n \in Names : SetText(n, "9") /\ Log([op |-> "set", name |-> n, text |-> "9"])
       \/ \E n \in Names, kd \in {"int", "string"} :
            /\ Get(kd, n, "8", "7", n \in DOMAIN table,
                   IF n \notin DOMAIN table THEN Cast(kd, "8") ELSE IF Castable(kd, table[n]) THEN Cast(kd, table[n]) ELSE Cast(kd, "7"))
            /\ Log([op |-> "get", name |-> n, kind |-> kd])
       \/ table # <<>> /\ Clear /\ Log([op |-> "clear"])
    /\ (Len(hist') < MaxLen \/ PrintT("@@" \o ToJson(hist')))
Spec == Init /\ [][Next]_<<table, hist>>

TypeInv == \A k \in DOMAIN table : IsWord(k) /\ IsWord(table[k])
(* a listing of the table read back gives the table again, in any order of lines *)
RECURSIVE AnyOrder(_)
AnyOrder(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x \o " " \o table[x]>> \o AnyOrder(S \ {x})
RoundTripInv == (\A k \in DOMAIN table : Ch(k, 1) # "#") => ReadLines(<<>>, AnyOrder(DOMAIN table), 1) = table
CommentInv == \A k \in DOMAIN table : Ch(k, 1) # "#"
=============================================================================
