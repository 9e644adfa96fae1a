SPECIFICATION Spec
CONSTANTS D = 3
 H = 1
 Q = 2
INVARIANTS NearInv FitInv
CHECK_DEADLOCK FALSE
