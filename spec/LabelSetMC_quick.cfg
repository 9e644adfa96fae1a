SPECIFICATION Spec
CONSTANTS Labels = {1, 2, 3, 4}
INVARIANTS EmitInv Laws
CHECK_DEADLOCK FALSE
