SPECIFICATION Spec
CONSTANTS EB = 3
 MB = 1
 Dim = 2
 Triples = FALSE
INVARIANTS KeyInv TotalInv TransInv BoxInv
CHECK_DEADLOCK FALSE
