SPECIFICATION Spec
CONSTANTS MaxLen = 5
 Kinds = {"heap", "lut", "interval", "line", "plane", "peak"}
INVARIANTS HeapInv LutInv LineInv PeakInv
CHECK_DEADLOCK FALSE
