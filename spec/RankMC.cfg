SPECIFICATION Spec
CONSTANTS
    MaxPat = 3
    MaxCnt = 3
    MaxLen = 11
INVARIANTS Segments Inverse Fit Jacobson Nine Search
CHECK_DEADLOCK FALSE
