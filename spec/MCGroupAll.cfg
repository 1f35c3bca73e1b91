INIT Init
NEXT Next
INVARIANTS Sound Converted Compressed Compared
CONSTANTS
    Operands = "all"
    Scales = {1, 2, 50}
CHECK_DEADLOCK FALSE
