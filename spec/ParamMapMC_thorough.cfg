SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS TypeInv RoundTripInv CommentInv
CHECK_DEADLOCK FALSE
