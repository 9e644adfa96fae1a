SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS TypeInv RoundTripInv CommentInv
CHECK_DEADLOCK FALSE
