SPECIFICATION Spec
CONSTANT Steps = 3
INVARIANTS Same Points Ids MonotoneOnce
PROPERTIES OneWay Nothing
CHECK_DEADLOCK FALSE
