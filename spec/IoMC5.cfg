SPECIFICATION Spec
CONSTANTS MaxBlock = 4 Limit = 5
INVARIANTS Refines Orders
CHECK_DEADLOCK FALSE
