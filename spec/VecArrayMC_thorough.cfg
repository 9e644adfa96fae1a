SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 2, 3}
 Dim = 2
 MaxOps = 2
INVARIANTS LawInv FrameInv
CHECK_DEADLOCK FALSE
