SPECIFICATION Spec
CONSTANT MaxReals = 3
INVARIANTS KeptFromSource NoDuplicates SplitPartitions FiltersCommute JoinIsUnion JoinAbsorbs ShiftedAtMostOnce LiveAgree
CHECK_DEADLOCK FALSE
