SPECIFICATION Spec
CONSTANTS Wid = 4 Eb = 1 MaxBlocks = 6
INVARIANTS Kept RoomIsThere Reported Holds
CHECK_DEADLOCK FALSE
