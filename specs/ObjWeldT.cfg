SPECIFICATION Spec
CONSTANTS NV = 5
 NF = 2
 Offs = {0, 6, 12, 18}
 Places = {1}
 HOLD = TRUE
INVARIANT Welded
CHECK_DEADLOCK FALSE
