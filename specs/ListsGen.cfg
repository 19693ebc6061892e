SPECIFICATION Spec
CONSTANTS N = 4
 K = 3
 A = 18
CHECK_DEADLOCK FALSE
