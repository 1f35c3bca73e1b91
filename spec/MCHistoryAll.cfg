SPECIFICATION Spec
INVARIANTS Fresh Repeats Kept Emit
CONSTANT MaxBetween = 2
CHECK_DEADLOCK FALSE
