SPECIFICATION Spec
CONSTANTS N = 2 MaxW = 2 MaxSteps = 4
INVARIANTS Agree Ordered Closed Columns Flattened Dimensions
CHECK_DEADLOCK FALSE
