CONSTANT NumDays = 5
CONSTANT Values = {"0", "1", "0.5"}
CONSTANT ChangeTypes = {"town", "camp", "conflict_zone", "forwarding_hub"}
INIT Init
NEXT Next
INVARIANTS ByTable ByDate ByChange Untouched
CHECK_DEADLOCK FALSE
