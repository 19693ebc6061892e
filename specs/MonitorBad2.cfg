SPECIFICATION Spec
CONSTANTS N = 6
 NR = 2
 Radii = {1, 2}
 AFTER = FALSE
 FROM = "critical"
INVARIANT Promise
CHECK_DEADLOCK FALSE
