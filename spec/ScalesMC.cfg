SPECIFICATION Spec
CONSTANTS MaxSteps = 5 MaxZ = 4 MaxPlanes = 2
INVARIANTS PathFree Products AgesAdd Followed
CHECK_DEADLOCK FALSE
