SPECIFICATION Spec
CONSTANTS Widths = {1, 2, 3, 4, 5, 6, 7, 8, 10, 12}
INVARIANTS NlzInv AbsInv LogInv FloorInv CeilInv FitInv LessInv XorInv
CHECK_DEADLOCK FALSE
