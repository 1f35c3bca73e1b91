SPECIFICATION Spec
INVARIANTS SameAsWhole BufferNotFull Emit
CONSTANTS
    Rate = 72
    PartLens = {0, 1, 71, 72, 73, 144}
    MaxParts = 4
CHECK_DEADLOCK FALSE
