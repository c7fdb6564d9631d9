CONSTANTS MaxIn = 3 MaxCrash = 1 MaxFail = 1 MaxBurst = 1 MaxBad = 0 MaxTime = 3 Export = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Holds NeverStuck Agree LockProved DiskSound Types
CHECK_DEADLOCK FALSE
