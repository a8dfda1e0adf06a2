SPECIFICATION Spec
CONSTANTS
    MaxPat = 2
    MaxCnt = 3
    MaxLen = 9
INVARIANTS Segments Inverse Fit Jacobson Nine Search
CHECK_DEADLOCK FALSE
