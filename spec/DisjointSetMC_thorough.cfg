SPECIFICATION Spec
CONSTANTS MaxLen = 5
 Sets = 4
INVARIANTS ComponentInv RepInv CountInv
CHECK_DEADLOCK FALSE
