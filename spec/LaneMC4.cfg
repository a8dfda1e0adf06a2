SPECIFICATION Spec
CONSTANTS
    NL = 2
    LW = 4
INVARIANTS Unsigned SignedLe NonZero Safe
CHECK_DEADLOCK FALSE
