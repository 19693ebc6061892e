SPECIFICATION Spec
CONSTANTS NX = 3 NY = 3 NZ = 2 MaxSeeds = 4 MaxGhost = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
