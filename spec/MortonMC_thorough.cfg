SPECIFICATION Spec
CONSTANTS WB = 4
 DM = 2
 Triples = FALSE
INVARIANTS ChanInv MsbInv TotalInv TransInv BoxInv BlockInv SplitInv DistInv
CHECK_DEADLOCK FALSE
