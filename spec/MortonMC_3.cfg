SPECIFICATION Spec
CONSTANTS WB = 2
 DM = 3
 Triples = TRUE
INVARIANTS ChanInv MsbInv TotalInv TransInv BoxInv BlockInv SplitInv DistInv
CHECK_DEADLOCK FALSE
