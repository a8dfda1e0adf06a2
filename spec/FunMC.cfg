SPECIFICATION Spec
INVARIANTS DivsOk LogsOk TopOk CeilDivOk SpansOk SelectOk
CHECK_DEADLOCK FALSE
