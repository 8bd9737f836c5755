SPECIFICATION Spec
CONSTANT Steps = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
