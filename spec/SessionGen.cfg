SPECIFICATION Spec
CONSTANT Entries = 22
CONSTANT Looks = 8
CONSTANT Repeats = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
