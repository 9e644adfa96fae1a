SPECIFICATION Spec
CONSTANTS Days = 400000
 Shift = 25000
 Emit = 397
INVARIANTS ValidInv OrderInv InverseInv LengthInv ChangeInv EpochInv
CHECK_DEADLOCK FALSE
