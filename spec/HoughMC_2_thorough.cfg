SPECIFICATION Spec
CONSTANTS NA = 2
 MaxOps = 3
 Sample = 23
INVARIANTS AccumInv OnceInv TolerantInv SpectrumInv CoplanarInv ExtractInv
CHECK_DEADLOCK FALSE
