SPECIFICATION Spec
CONSTANT Steps = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
