SPECIFICATION Spec
CONSTANT MaxGiven = 2
INVARIANTS NonInterference Effective Precedence OneAmplitude
CHECK_DEADLOCK FALSE
