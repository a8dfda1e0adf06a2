SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS TypeOK Same Answer Views
CHECK_DEADLOCK FALSE
