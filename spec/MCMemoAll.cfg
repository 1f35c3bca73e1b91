SPECIFICATION Spec
INVARIANTS Exposed AtMostTwoSlots Emit
CONSTANTS
    MaxAspects = 6
CHECK_DEADLOCK FALSE
