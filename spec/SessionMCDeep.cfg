SPECIFICATION Spec
CONSTANTS Copy = TRUE
          Keep = TRUE
          MaxCalls = 4
INVARIANTS Untouched DefaultsStay CallAlone OwnCosmology Repeatable
