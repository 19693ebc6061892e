SPECIFICATION Spec
CONSTANT NL = 6
INVARIANT Exact
INVARIANT Lowest
CHECK_DEADLOCK FALSE
