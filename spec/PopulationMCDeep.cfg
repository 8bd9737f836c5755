SPECIFICATION Spec
CONSTANTS MaxZ = 16 MaxStep = 6
INVARIANTS PlanesGood WindowSplits WindowHolds OneSheetPerPlane NoSheetForNothing TwoHaloHasNoSheet SubhaloSheet ScaleMultiplies ClassesAdd Narrowing
CHECK_DEADLOCK FALSE
