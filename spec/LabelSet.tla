------------------------------ MODULE LabelSet ------------------------------
(* rofl::LabelSet: finite sets of integers.  A client holds several sets,     *)
(* env[s] for slot s; operations read some slots and write one.               *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES env

Set(s, S) == env' = [env EXCEPT ![s] = S]
InsertR(s, x) == x \in env[s]              \* insert() tells whether the label was present
Insert(s, x) == Set(s, env[s] \cup {x})
Remove(s, x) == Set(s, env[s] \ {x})
Clear(s) == Set(s, {})
Union(s, a, b) == Set(s, env[a] \cup env[b])
Inter(s, a, b) == Set(s, env[a] \cap env[b])
Diff(s, a, b)  == Set(s, env[a] \ env[b])
Union1(s, a, x) == Set(s, env[a] \cup {x})
Diff1(s, a, x)  == Set(s, env[a] \ {x})

(* ascending enumeration *)
IsSortedEnum(q, S) == /\ {q[i] : i \in DOMAIN q} = S /\ Len(q) = Cardinality(S)
                      /\ \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
=============================================================================
