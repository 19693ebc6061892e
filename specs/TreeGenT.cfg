SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  MaxPts = 3
INVARIANT LinksIn
INVARIANT Emit
CHECK_DEADLOCK FALSE
