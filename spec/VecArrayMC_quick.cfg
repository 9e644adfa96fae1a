SPECIFICATION Spec
CONSTANTS Vals = {0, 2, 3}
 Dim = 2
 MaxOps = 1
INVARIANTS LawInv FrameInv
CHECK_DEADLOCK FALSE
