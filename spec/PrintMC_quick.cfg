SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Vals = {0, 1, 2}
INVARIANTS HeapSorted Levels
CHECK_DEADLOCK FALSE
