SPECIFICATION Spec
CONSTANTS Clouds = 1
 Planes = 1
 Tols = {50, 150}
 MaxOps = 4
INVARIANTS FrameInv CentreInv HeightInv SignInv RigidInv
CHECK_DEADLOCK FALSE
