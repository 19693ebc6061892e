SPECIFICATION Spec
CONSTANTS N = 6 NL = 3 MaxWall = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
