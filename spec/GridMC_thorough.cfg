SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS LastInv BijInv
CHECK_DEADLOCK FALSE
