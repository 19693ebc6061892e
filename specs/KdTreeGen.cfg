SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  MaxN = 4
  Bounds = {1, 4, 6, 1000}
  Strict = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
