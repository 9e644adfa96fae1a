SPECIFICATION Spec
CONSTANTS NA = 2
 MaxOps = 2
 Sample = 1
INVARIANTS AccumInv OnceInv TolerantInv SpectrumInv CoplanarInv ExtractInv
CHECK_DEADLOCK FALSE
