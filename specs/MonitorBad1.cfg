SPECIFICATION Spec
CONSTANTS N = 6
 NR = 2
 Radii = {1, 2}
 AFTER = TRUE
 FROM = "surface"
INVARIANT Promise
CHECK_DEADLOCK FALSE
