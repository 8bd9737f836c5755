SPECIFICATION Spec
CONSTANTS MaxZ = 8 MaxStep = 3
INVARIANTS PlanesGood WindowSplits WindowHolds OneSheetPerPlane NoSheetForNothing TwoHaloHasNoSheet SubhaloSheet ScaleMultiplies ClassesAdd Narrowing
CHECK_DEADLOCK FALSE
