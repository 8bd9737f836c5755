SPECIFICATION Spec
CONSTANT MaxTrees = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
