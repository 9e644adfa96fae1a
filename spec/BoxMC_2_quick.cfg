SPECIFICATION Spec
CONSTANTS D = 2
 H = 2
 Q = 3
INVARIANTS NearInv FitInv
CHECK_DEADLOCK FALSE
