SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Sets = 4
INVARIANTS ComponentInv RepInv CountInv
CHECK_DEADLOCK FALSE
