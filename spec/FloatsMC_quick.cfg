SPECIFICATION Spec
CONSTANTS EB = 3
 MB = 2
INVARIANTS InvInv KindInv OrderInv LevelInv BlockInv
CHECK_DEADLOCK FALSE
