SPECIFICATION Spec
INVARIANTS Exact NoReuse Prefix Reported Emit
CONSTANTS
    Portions = {0, 1, 16, 31, 32, 33, 64}
    MaxCuts = 4
    MaxCalls = 2
    MaxOnce = 1
CHECK_DEADLOCK FALSE
