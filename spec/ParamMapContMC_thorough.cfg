SPECIFICATION Spec
CONSTANTS MaxLen = 6
INVARIANTS SplitInv FillInv
CHECK_DEADLOCK FALSE
