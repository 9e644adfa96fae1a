SPECIFICATION Spec
CONSTANTS Back = 26
 Fwd = 30
 Off = {0, 1, 7, 14}
 Phases = {0, 75, 180}
INVARIANTS CasesInv ShiftInv EncloseInv TightInv
CHECK_DEADLOCK FALSE
