INIT Init
NEXT Next
INVARIANTS InRange Falls Limits StaysFull NotACamp
CHECK_DEADLOCK FALSE
