SPECIFICATION Spec
CONSTANTS
    WB = 6
    Look = 13
    MaxLen = 13
    MaxAct = 7
INVARIANTS SameState SameMeaning SameSteps SameWrites
CHECK_DEADLOCK FALSE
