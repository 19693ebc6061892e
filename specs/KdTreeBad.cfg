SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  MaxN = 3
  Bounds = {1, 4, 6, 1000}
  Strict = FALSE
INVARIANT SearchExact
INVARIANT RangeExact
INVARIANT AllIn
CHECK_DEADLOCK FALSE
