SPECIFICATION Spec
CONSTANTS EB = 2
 MB = 1
 Dim = 2
 Triples = TRUE
INVARIANTS KeyInv TotalInv TransInv BoxInv
CHECK_DEADLOCK FALSE
