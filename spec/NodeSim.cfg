CONSTANTS MaxIn = 30 MaxCrash = 2 MaxFail = 2 MaxBurst = 4 MaxBad = 2 MaxTime = 12 Export = TRUE
SPECIFICATION Spec
INVARIANTS Holds NeverStuck Agree LockProved DiskSound Types
CHECK_DEADLOCK FALSE
