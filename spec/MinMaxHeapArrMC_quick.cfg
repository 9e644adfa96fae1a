SPECIFICATION Spec
CONSTANTS MaxN = 12
 MaxVal = 3
 Sample = 7
INVARIANTS TreeInv RefineInv ViewInv
CHECK_DEADLOCK FALSE
