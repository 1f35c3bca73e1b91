SPECIFICATION Spec
INVARIANTS Fresh Repeats Kept Emit
CONSTANT MaxBetween = 1
CHECK_DEADLOCK FALSE
