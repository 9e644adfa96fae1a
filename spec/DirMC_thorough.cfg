SPECIFICATION Spec
CONSTANTS Names = {1, 2}
 Kinds = {"file", "dir", "link"}
 MaxOps = 5
INVARIANTS SortedInv ListInv OriginInv
CHECK_DEADLOCK FALSE
