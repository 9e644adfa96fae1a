SPECIFICATION Spec
CONSTANTS MaxN = 15
 MaxVal = 3
 Sample = 17
INVARIANTS TreeInv RefineInv ViewInv
CHECK_DEADLOCK FALSE
