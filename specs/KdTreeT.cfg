SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 2
  MaxN = 4
  Bounds = {1, 4, 6, 1000}
  Strict = TRUE
INVARIANT SearchExact
INVARIANT RangeExact
INVARIANT AllIn
CHECK_DEADLOCK FALSE
