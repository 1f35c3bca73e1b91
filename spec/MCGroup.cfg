INIT Init
NEXT Next
INVARIANTS Sound Converted Compressed Compared
CONSTANTS
    Operands = "few"
    Scales = {1, 7}
CHECK_DEADLOCK FALSE
