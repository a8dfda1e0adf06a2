SPECIFICATION Spec
CONSTANT MaxLen = 8
INVARIANTS TypeOK Same Answer Views
CHECK_DEADLOCK FALSE
