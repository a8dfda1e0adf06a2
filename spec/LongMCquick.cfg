SPECIFICATION Spec
CONSTANTS
    WB = 6
    Look = 13
    MaxLen = 8
    MaxAct = 3
INVARIANTS SameState SameMeaning SameSteps SameWrites
CHECK_DEADLOCK FALSE
