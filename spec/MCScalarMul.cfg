INIT Init
NEXT Next
INVARIANTS Radix Windows TableOK Single Double
CONSTANTS
    MulPoints = "few"
    RecodeLen = 2
CHECK_DEADLOCK FALSE
