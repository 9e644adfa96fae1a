SPECIFICATION Spec
CONSTANTS Labels = {"a", "b"}
 Times = {0, 1, 2, 5, 7}
 MaxOps = 5
INVARIANTS OnlineInv LabelInv
CHECK_DEADLOCK FALSE
