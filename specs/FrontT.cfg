SPECIFICATION Spec
CONSTANTS N = 22
 RMAX = 4
 LIP = 1
 FAR = 8
 ROUNDS = 4
INVARIANTS Separated Apart
CHECK_DEADLOCK FALSE
