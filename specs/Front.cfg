SPECIFICATION Spec
CONSTANTS N = 16
 RMAX = 4
 LIP = 1
 FAR = 8
 ROUNDS = 3
INVARIANTS Separated Apart
CHECK_DEADLOCK FALSE
