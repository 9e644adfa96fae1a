SPECIFICATION Spec
CONSTANTS WB = 3
 DM = 2
 Triples = TRUE
INVARIANTS ChanInv MsbInv TotalInv TransInv BoxInv BlockInv SplitInv DistInv
CHECK_DEADLOCK FALSE
