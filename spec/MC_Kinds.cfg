INIT Init
NEXT Next
VIEW StateView
INVARIANTS OneKind Memoryless Passing
CHECK_DEADLOCK FALSE
