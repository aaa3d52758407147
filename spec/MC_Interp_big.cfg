CONSTANT LastDay = 7
CONSTANT Counts = {0, 1, 3, 10}
INIT Init
NEXT Next
INVARIANTS Dates Ends Between
CHECK_DEADLOCK FALSE
