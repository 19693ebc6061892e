SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  MaxPts = 3
INVARIANT LinksIn
INVARIANT Emit
CHECK_DEADLOCK FALSE
