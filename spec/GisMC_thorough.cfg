SPECIFICATION Spec
CONSTANTS StepLat = 3
 StepLon = 15
INVARIANTS MulInv SymInv EcefInv EllipInv
CHECK_DEADLOCK FALSE
