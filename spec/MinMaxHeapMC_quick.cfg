SPECIFICATION Spec
CONSTANTS MaxLen = 7
          MaxVal = 3
INVARIANTS SizeInv OrderInv
CHECK_DEADLOCK FALSE
