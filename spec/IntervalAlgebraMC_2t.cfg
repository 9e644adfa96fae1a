SPECIFICATION Spec
CONSTANTS MinNeg = 1
          MinHi = 1
          DimNeg = 1
          DimHi = 3
          N = 2
INVARIANTS SizeInv InsideInv InterInv MinMaxInv StackInv TransInv
CHECK_DEADLOCK FALSE
