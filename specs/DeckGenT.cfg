SPECIFICATION Spec
CONSTANTS N = 5
 M = 2
INVARIANTS NoiseFree Orderless LastWins OwnOnly
CHECK_DEADLOCK FALSE
