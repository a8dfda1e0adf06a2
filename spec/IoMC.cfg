SPECIFICATION Spec
CONSTANTS MaxBlock = 4 Limit = 2
INVARIANTS Refines Orders
CHECK_DEADLOCK FALSE
