SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS SplitInv FillInv
CHECK_DEADLOCK FALSE
