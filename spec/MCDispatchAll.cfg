SPECIFICATION Spec
INVARIANTS Bound Functional Used NeedsKey Emit
CONSTANTS
    PairKinds <- Large
    MaxPairs = 2
    MaxWrap = 2
    MaxUses = 2
    Thin = 211
CHECK_DEADLOCK FALSE
