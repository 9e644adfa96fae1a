SPECIFICATION Spec
CONSTANTS MinNeg = 0
          MinHi = 0
          DimNeg = 0
          DimHi = 2
          N = 3
INVARIANTS SizeInv InsideInv InterInv MinMaxInv StackInv TransInv
CHECK_DEADLOCK FALSE
