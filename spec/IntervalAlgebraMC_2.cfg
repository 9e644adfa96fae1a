SPECIFICATION Spec
CONSTANTS MinNeg = 0
          MinHi = 1
          DimNeg = 1
          DimHi = 2
          N = 2
INVARIANTS SizeInv InsideInv InterInv MinMaxInv StackInv TransInv
CHECK_DEADLOCK FALSE
