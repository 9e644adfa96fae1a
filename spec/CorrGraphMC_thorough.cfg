SPECIFICATION Spec
CONSTANTS NS = 3
 ND = 3
 MaxDist = 2
 Tols = {1, 2}
 Mins = {0, 1}
 Sample = 1
INVARIANTS SoundInv DoneInv InjInv
CHECK_DEADLOCK FALSE
