INIT Init
NEXT Next
INVARIANTS Refusals OneDriver Drivers Floods Legacy
CHECK_DEADLOCK FALSE
