SPECIFICATION Spec
CONSTANTS Widths = {1, 2, 3, 4, 5, 8}
INVARIANTS NlzInv AbsInv LogInv FloorInv CeilInv FitInv LessInv XorInv
CHECK_DEADLOCK FALSE
