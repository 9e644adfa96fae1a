SPECIFICATION Spec
CONSTANTS MaxLen = 8
          MaxVal = 3
INVARIANTS SizeInv OrderInv
CHECK_DEADLOCK FALSE
