SPECIFICATION Spec
CONSTANTS Lo = 0
          Hi = 5
          MaxN = 4
INVARIANTS RasterInv BoustInv EmptyInv
CHECK_DEADLOCK FALSE
