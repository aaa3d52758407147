CONSTANT Starts = {0, 1, 2}
CONSTANT Ends = {0, 1, 2, 3}
INIT Init
NEXT Next
INVARIANTS Roads Camps Redirections
CHECK_DEADLOCK FALSE
