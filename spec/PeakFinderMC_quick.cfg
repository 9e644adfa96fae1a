SPECIFICATION Spec
CONSTANTS Doms <- QDoms
 Wins <- QWins
 Vals = {0, 1, 2}
INVARIANTS ExactInv WindowInv
CHECK_DEADLOCK FALSE
