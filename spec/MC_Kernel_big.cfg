CONSTANT People = 3
CONSTANT LastDay = 4
CONSTANT Speeds = {"100"}
CONSTANT Lengths = {"50", "150"}
CONSTANT Awareness = {2}
INIT Init
NEXT Next
INVARIANTS Counts Everybody Sinks Clocks2 NotThere FirstRoad ArrivedInTime Distances Back Entering Arrivals2
CHECK_DEADLOCK FALSE
