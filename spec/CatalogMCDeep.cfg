SPECIFICATION Spec
CONSTANTS MaxTrees = 3 MaxSize = 2 Masses = {6}
INVARIANTS ReaderRight NeverLoses Confluent NoHosts Shorter
CHECK_DEADLOCK FALSE
