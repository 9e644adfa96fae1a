SPECIFICATION Spec
CONSTANTS StepLat = 18
 StepLon = 60
INVARIANTS MulInv SymInv EcefInv EllipInv
CHECK_DEADLOCK FALSE
