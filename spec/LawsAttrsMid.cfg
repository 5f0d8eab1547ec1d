CONSTANTS Group = "attrs"  Extra = 1
SPECIFICATION Spec
INVARIANTS Total Sound Minimal Back Mirror
PROPERTY Steady
CHECK_DEADLOCK FALSE
