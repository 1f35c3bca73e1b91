SPECIFICATION Spec
INVARIANTS Accepts Printed CaseBlind BigEndian Integers Emit
CONSTANTS
    MaxLen = 3
    Alphabet = {0, 10, 32, 43, 45, 47, 48, 49, 57, 58, 64, 65, 70, 71, 88, 96, 97, 102, 103, 120, 128, 255}
    Ints <- SomeInts
CHECK_DEADLOCK FALSE
