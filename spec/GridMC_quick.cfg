SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS LastInv BijInv
CHECK_DEADLOCK FALSE
