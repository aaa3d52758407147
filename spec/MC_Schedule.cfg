CONSTANT Starts = {0, 1}
CONSTANT Ends = {0, 1, 2}
INIT Init
NEXT Next
INVARIANTS Roads Camps Redirections
CHECK_DEADLOCK FALSE
