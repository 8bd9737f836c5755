SPECIFICATION Spec
CONSTANTS MaxCalls = 20 MaxRays = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
