SPECIFICATION Spec
CONSTANTS Points <- QPoints
 Boxes <- QBoxes
 MaxOps = 3
INVARIANTS OrderInv CutInv BoxInv
CHECK_DEADLOCK FALSE
