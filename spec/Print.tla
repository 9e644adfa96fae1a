------------------------------- MODULE Print -------------------------------
(* Printed forms (C35): the text which an object writes on a stream tells its *)
(* content, and writing does not change it.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES ls,      \* labels of the label set
          hp       \* items of the heap, in increasing order

RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
Texts(s) == [i \in DOMAIN s |-> ToString(s[i])]
Less(x, y) == x < y
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})

LabelText == "{" \o Join(Texts(Sorted(ls)), ", ") \o "}"
IndexText(s) == "[" \o Join(Texts(s), ",") \o "]"
IntervalText(mn, dim) == "[" \o Join([d \in DOMAIN mn |-> ToString(mn[d]) \o ":" \o ToString(mn[d] + dim[d] - 1)], ",") \o "]"
ItemText(v, id) == IndexText(v) \o "(id " \o ToString(id) \o ")"
(* message with the position in the source, and name/value pairs *)
Where(file, line) == file \o "," \o ToString(line) \o ": "
VarText(file, line, names, vals) == Where(file, line) \o Join([i \in DOMAIN vals |-> names[i] \o " " \o ToString(vals[i])], ", ") \o "\n"

(* the rows of a heap: <<level, position, value>> *)
RECURSIVE LevelOf(_)
LevelOf(p) == IF p = 0 THEN 0 ELSE 1 + LevelOf((p - 1) \div 2)
Times(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Rows(tr) ==
    /\ Len(tr) = Len(hp)
    /\ \A i \in DOMAIN tr : tr[i][2] = i - 1 /\ tr[i][1] = LevelOf(i - 1)
    /\ LET vs == [i \in DOMAIN tr |-> tr[i][3]] IN \A x \in {vs[i] : i \in DOMAIN vs} \cup {hp[i] : i \in DOMAIN hp} : Times(vs, x) = Times(hp, x)
    /\ hp # <<>> => tr[1][3] = hp[1]

Place(s, x) == LET k == Cardinality({i \in DOMAIN s : s[i] <= x}) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
Change(o) ==
    CASE o.op = "insert" -> ls' = ls \cup {o.x} /\ UNCHANGED hp
      [] o.op = "remove" -> ls' = ls \ {o.x} /\ UNCHANGED hp
      [] o.op = "push" -> hp' = Place(hp, o.x) /\ UNCHANGED ls
      [] o.op = "popTop" -> hp # <<>> /\ hp' = Tail(hp) /\ UNCHANGED ls
      [] o.op = "popBottom" -> hp # <<>> /\ hp' = SubSeq(hp, 1, Len(hp) - 1) /\ UNCHANGED ls
      [] OTHER -> UNCHANGED <<ls, hp>>
Start == ls = {} /\ hp = <<>>
=============================================================================
