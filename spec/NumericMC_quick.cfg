SPECIFICATION Spec
CONSTANTS X = 5
 V = 6
 Step = 150
INVARIANTS LutInv LutExact TrigInv
CHECK_DEADLOCK FALSE
