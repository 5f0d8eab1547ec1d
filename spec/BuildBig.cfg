SPECIFICATION Spec
CONSTANTS Shapes <- S3  PanicLeaks = TRUE
INVARIANTS Counted Once Sound Ordered
CHECK_DEADLOCK FALSE
