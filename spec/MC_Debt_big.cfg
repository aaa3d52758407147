CONSTANT NumDays = 6
CONSTANT Counts = {0, 1, 3, 7}
INIT Init
NEXT Next
INVARIANTS Balance Owing Peak
CHECK_DEADLOCK FALSE
