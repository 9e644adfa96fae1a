SPECIFICATION Spec
CONSTANTS EB = 3
 MB = 4
INVARIANTS InvInv KindInv OrderInv LevelInv BlockInv
CHECK_DEADLOCK FALSE
