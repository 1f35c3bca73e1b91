SPECIFICATION Spec
INVARIANTS Exposed AtMostTwoSlots Emit
CONSTANTS
    MaxAspects = 5
CHECK_DEADLOCK FALSE
