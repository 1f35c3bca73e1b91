SPECIFICATION Spec
INVARIANTS Permutation RoundTrip OnlyImages Emit
CONSTANTS
    MaxLen = 4
    Keys = {0, 5}
CHECK_DEADLOCK FALSE
