CONSTANT OneWay = TRUE
INIT Init
NEXT Next
INVARIANTS Exact Grows
CHECK_DEADLOCK FALSE
