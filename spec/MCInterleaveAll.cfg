SPECIFICATION Spec
INVARIANTS NoReuse Conserved InOrder Sticky Emit
CONSTANTS
    Shapes <- Large
    Ends = {40, 90}
CHECK_DEADLOCK FALSE
