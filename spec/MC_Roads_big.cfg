CONSTANT Removing = TRUE
INIT Init
NEXT Next
VIEW StateView
INVARIANTS Kept ExactLinks ExactLocations ExactBorders
CHECK_DEADLOCK FALSE
