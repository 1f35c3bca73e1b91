SPECIFICATION Spec
INVARIANTS Permutation RoundTrip OnlyImages Emit
CONSTANTS
    MaxLen = 6
    Keys = {0, 1, 5}
CHECK_DEADLOCK FALSE
