SPECIFICATION Spec
CONSTANTS MinNeg = 1
          MinHi = 2
          DimNeg = 2
          DimHi = 4
          N = 1
INVARIANTS SizeInv InsideInv InterInv MinMaxInv StackInv TransInv
CHECK_DEADLOCK FALSE
