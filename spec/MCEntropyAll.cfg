SPECIFICATION Spec
INVARIANTS Exact NoReuse Prefix Reported Emit
CONSTANTS
    Portions = {0, 1, 16, 31, 32, 33, 64}
    MaxCuts = 5
    MaxCalls = 3
    MaxOnce = 1
CHECK_DEADLOCK FALSE
