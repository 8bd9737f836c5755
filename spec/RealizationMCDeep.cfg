SPECIFICATION Spec
CONSTANT MaxReals = 4
INVARIANTS KeptFromSource NoDuplicates SplitPartitions FiltersCommute JoinIsUnion JoinAbsorbs ShiftedAtMostOnce LiveAgree
CHECK_DEADLOCK FALSE
