SPECIFICATION Spec
CONSTANTS N = 6
 Turns = 1
 Grid = 2
INVARIANTS ComplementInv TurnInv EndsInv CcwInv IsoInv TableInv
CHECK_DEADLOCK FALSE
