SPECIFICATION Spec
CONSTANT MaxGiven = 3
INVARIANTS NonInterference Effective Precedence OneAmplitude
CHECK_DEADLOCK FALSE
