SPECIFICATION Spec
INVARIANTS NoOverflow Products Emit
CONSTANTS
    MaxOps = 3
    Inputs = {"narrow", "pre"}
CHECK_DEADLOCK FALSE
