SPECIFICATION Spec
CONSTANTS N = 8
 Turns = 2
 Grid = 3
INVARIANTS ComplementInv TurnInv EndsInv CcwInv IsoInv TableInv
CHECK_DEADLOCK FALSE
