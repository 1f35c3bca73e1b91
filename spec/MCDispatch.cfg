SPECIFICATION Spec
INVARIANTS Bound Functional Used NeedsKey Emit
CONSTANTS
    PairKinds <- Small
    MaxPairs = 2
    MaxWrap = 2
    MaxUses = 2
    Thin = 97
CHECK_DEADLOCK FALSE
