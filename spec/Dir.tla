-------------------------------- MODULE Dir --------------------------------
(* Listing of the files of a directory (rofl/common/io.h, getDirectoryFiles). *)
(* fs maps <<directory, name>> to the kind of the entry.  Strings are         *)
(* represented by their rank in lexicographic (byte) order.                   *)
EXTENDS Integers, Sequences, FiniteSets
Regular == {"file", "empty", "exec", "link"}     \* "link": symbolic link to a regular file
Other == {"dir", "fulldir", "linkdir", "dangling", "fifo"}
Make(fs, d, n, k) == [x \in (DOMAIN fs) \union {<<d, n>>} |-> IF x = <<d, n>> THEN k ELSE fs[x]]
Remove(fs, d, n) == [x \in (DOMAIN fs) \ {<<d, n>>} |-> fs[x]]
Files(fs, d) == {x[2] : x \in {y \in DOMAIN fs : y[1] = d /\ fs[y] \in Regular}}
Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
(* new is old with the (distinct) strings of add, sorted *)
Listed(old, add, new) ==
    /\ Len(new) = Len(old) + Cardinality(add)
    /\ Sorted(new)
    /\ \A v \in {new[i] : i \in DOMAIN new} : Count(new, v) = Count(old, v) + (IF v \in add THEN 1 ELSE 0)
=============================================================================
