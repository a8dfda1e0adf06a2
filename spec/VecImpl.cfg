SPECIFICATION Spec
CONSTANTS
    BW = 4
    MaxBlocks = 2
VIEW View
INVARIANTS TypeOK Tight Clean
PROPERTY Refines
CHECK_DEADLOCK FALSE
