INIT Init
NEXT Next
INVARIANTS Radix Windows TableOK Single Double
CONSTANTS
    MulPoints = "all"
    RecodeLen = 2
CHECK_DEADLOCK FALSE
