SPECIFICATION Spec
INVARIANTS SameAsWhole BufferNotFull Emit
CONSTANTS
    Rate = 72
    PartLens = {0, 1, 8, 64, 71, 72, 73, 143, 144, 145}
    MaxParts = 4
CHECK_DEADLOCK FALSE
