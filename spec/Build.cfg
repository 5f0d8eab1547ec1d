SPECIFICATION Spec
CONSTANTS Shapes <- S2  PanicLeaks = TRUE
INVARIANTS Counted Once Sound Ordered
CHECK_DEADLOCK FALSE
