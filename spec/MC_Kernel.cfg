CONSTANT People = 2
CONSTANT LastDay = 3
CONSTANT Speeds = {"100"}
CONSTANT Lengths = {"50", "100", "150"}
CONSTANT Awareness = {1, 2}
INIT Init
NEXT Next
INVARIANTS Counts Everybody Sinks Clocks2 NotThere FirstRoad ArrivedInTime Distances Back Entering Arrivals2
CHECK_DEADLOCK FALSE
