INIT Init
NEXT Next
INVARIANTS KeyOK Complete Strict Cofactorless Symmetric SmallKey
CONSTANTS
    Keys = {0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233, 255, 100, 200, 17, 60, 77, 91, 123, 187, 210, 245}
    Publics = {0, 1, 2, 3, 100, 101, 102, 127, 128, 129, 228, 229, 255, 10, 20, 33, 47, 60, 83, 91, 144, 175, 200, 222}
    Halves = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 21, 22, 23, 33, 44, 45, 50, 110, 121, 127, 128, 200, 242, 253, 255}
CHECK_DEADLOCK FALSE
