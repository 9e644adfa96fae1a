SPECIFICATION Spec
CONSTANTS N = 3
 MaxX = 6
 Rngs = {1, 2, 3}
INVARIANTS SeenInv FracInv BestInv MeanInv AgreeInv FlatInv
CHECK_DEADLOCK FALSE
