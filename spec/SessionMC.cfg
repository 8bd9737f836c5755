SPECIFICATION Spec
CONSTANTS Copy = TRUE
          Keep = TRUE
          MaxCalls = 3
INVARIANTS Untouched DefaultsStay CallAlone OwnCosmology Repeatable
