SPECIFICATION Spec
CONSTANTS D = 2
 H = 3
 Q = 5
INVARIANTS NearInv FitInv
CHECK_DEADLOCK FALSE
