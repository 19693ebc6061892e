SPECIFICATION Spec
CONSTANTS NX = 2 NY = 2 NZ = 2 MaxSeeds = 8 MaxGhost = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
