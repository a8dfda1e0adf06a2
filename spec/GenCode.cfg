SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANT WB = 64
