SPECIFICATION Spec
CONSTANTS N = 5
 K = 4
 A = 40
CHECK_DEADLOCK FALSE
