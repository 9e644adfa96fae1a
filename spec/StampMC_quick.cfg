SPECIFICATION Spec
CONSTANTS Days = 50000
 Shift = 20000
 Emit = 197
INVARIANTS ValidInv OrderInv InverseInv LengthInv ChangeInv EpochInv
CHECK_DEADLOCK FALSE
