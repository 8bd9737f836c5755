SPECIFICATION Spec
CONSTANTS MaxTrees = 2 MaxSize = 2 Masses = {2, 6}
INVARIANTS ReaderRight NeverLoses Confluent NoHosts Shorter
CHECK_DEADLOCK FALSE
