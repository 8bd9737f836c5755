SPECIFICATION Spec
CONSTANTS N = 2
Steps = 3
MCKinds = {"NFW", "TNFW", "TNFWG", "HYBRID"}
INVARIANTS Once Product Order Alone
CHECK_DEADLOCK FALSE
