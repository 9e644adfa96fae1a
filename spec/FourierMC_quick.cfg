SPECIFICATION Spec
CONSTANTS Back = 14
 Fwd = 16
 Off = {0, 14}
 Phases = {0, 75, 180}
INVARIANTS CasesInv ShiftInv EncloseInv TightInv
CHECK_DEADLOCK FALSE
