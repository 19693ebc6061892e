SPECIFICATION Spec
CONSTANTS N = 5 NL = 5 MaxWall = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
