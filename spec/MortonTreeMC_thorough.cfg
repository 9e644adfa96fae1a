SPECIFICATION Spec
CONSTANTS Points <- QPoints
 Boxes <- QBoxes
 MaxOps = 4
INVARIANTS OrderInv CutInv BoxInv
CHECK_DEADLOCK FALSE
