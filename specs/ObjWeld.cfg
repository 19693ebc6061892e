SPECIFICATION Spec
CONSTANTS NV = 4
 NF = 2
 Offs = {0, 6, 12}
 Places = {1, 2}
 HOLD = TRUE
INVARIANT Welded
CHECK_DEADLOCK FALSE
