CONSTANTS N = 24  C0 = 8  Sizes = {1, 2, 3, 5, 7, 8, 9}  Slack = 0  Record = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT Emit
CHECK_DEADLOCK FALSE
