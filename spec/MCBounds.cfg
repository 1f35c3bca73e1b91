SPECIFICATION Spec
INVARIANTS NoOverflow Products Emit
CONSTANTS
    MaxOps = 2
    Inputs = {"narrow", "pre"}
CHECK_DEADLOCK FALSE
