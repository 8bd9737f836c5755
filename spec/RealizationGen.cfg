SPECIFICATION Spec
CONSTANT Steps = 11
INVARIANT Emit
CHECK_DEADLOCK FALSE
