SPECIFICATION Spec
CONSTANTS
    NL = 3
    LW = 2
INVARIANTS Unsigned SignedLe NonZero Safe
CHECK_DEADLOCK FALSE
