SPECIFICATION Spec
CONSTANT Steps = 2
INVARIANTS Same Points Ids MonotoneOnce
PROPERTIES OneWay Nothing
CHECK_DEADLOCK FALSE
