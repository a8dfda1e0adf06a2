SPECIFICATION Spec
CONSTANTS
    WB = 6
    MaxLen = 10
INVARIANTS Total Delimited Unique Final
CHECK_DEADLOCK FALSE
