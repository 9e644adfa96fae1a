SPECIFICATION Spec
CONSTANTS Names = {1, 2}
 Kinds = {"file", "dir", "link"}
 MaxOps = 4
INVARIANTS SortedInv ListInv OriginInv
CHECK_DEADLOCK FALSE
