SPECIFICATION Spec
CONSTANTS Labels = {"a", "b"}
 Times = {0, 1, 2, 7}
 MaxOps = 4
INVARIANTS OnlineInv LabelInv
CHECK_DEADLOCK FALSE
