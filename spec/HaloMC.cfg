SPECIFICATION Spec
CONSTANTS N = 1
Steps = 4
MCKinds = {"NFW", "TNFW", "TNFWG", "HYBRID"}
INVARIANTS Once Product Order Alone
CHECK_DEADLOCK FALSE
