CONSTANT NumDays = 4
CONSTANT Values = {"0", "1", "0.5"}
CONSTANT ChangeTypes = {"town", "camp"}
INIT Init
NEXT Next
INVARIANTS ByTable ByDate ByChange Untouched
CHECK_DEADLOCK FALSE
