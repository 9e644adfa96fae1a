SPECIFICATION Spec
CONSTANTS X = 7
 V = 10
 Step = 25
INVARIANTS LutInv LutExact TrigInv
CHECK_DEADLOCK FALSE
