CONSTANTS N = 7  C0 = 0  Sizes = {0, 1, 2, 3, 4, 5, 6}  Slack = 1  Record = FALSE
SPECIFICATION Spec
INVARIANTS TypeOk Content Source NotAskedForNothing Disjoint NoOverRead
PROPERTY IsCursor
CHECK_DEADLOCK FALSE
