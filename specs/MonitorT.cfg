SPECIFICATION Spec
CONSTANTS N = 7
 NR = 2
 Radii = {1, 2}
 AFTER = TRUE
 FROM = "critical"
INVARIANT Promise
CHECK_DEADLOCK FALSE
