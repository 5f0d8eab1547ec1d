CONSTANTS Group = "attrs"  Extra = 0
SPECIFICATION Spec
INVARIANTS Total Sound Minimal Back Mirror
PROPERTY Steady
CHECK_DEADLOCK FALSE
