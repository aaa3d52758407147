CONSTANT LastDay = 5
CONSTANT Counts = {0, 3, 10}
INIT Init
NEXT Next
INVARIANTS Dates Ends Between
CHECK_DEADLOCK FALSE
