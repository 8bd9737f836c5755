SPECIFICATION Spec
CONSTANTS N = 3 MaxW = 2 MaxSteps = 3
INVARIANTS Agree Ordered Closed Columns Flattened Dimensions
CHECK_DEADLOCK FALSE
