SPECIFICATION Spec
CONSTANTS MaxSteps = 7 MaxZ = 6 MaxPlanes = 3
INVARIANTS PathFree Products AgesAdd Followed
CHECK_DEADLOCK FALSE
