SPECIFICATION Spec
CONSTANTS Wid = 4 Eb = 3 MaxBlocks = 9
INVARIANTS Kept RoomIsThere Reported Holds
CHECK_DEADLOCK FALSE
