SPECIFICATION Spec
CONSTANTS Doms <- TDoms
 Wins <- TWins
 Vals = {0, 1, 2}
INVARIANTS ExactInv WindowInv
CHECK_DEADLOCK FALSE
