SPECIFICATION Spec
CONSTANTS Clouds = 2
 Planes = 2
 Tols = {50, 150, 350}
 MaxOps = 4
INVARIANTS FrameInv CentreInv HeightInv SignInv RigidInv
CHECK_DEADLOCK FALSE
