SPECIFICATION Spec
INVARIANTS TypeOk Content Source NotAskedForNothing Disjoint NoOverRead
PROPERTY IsCursor
CHECK_DEADLOCK FALSE
CONSTANTS N = 10  C0 = 5  Sizes = {0, 1, 2, 3, 4, 5, 6, 7}  Slack = 2  Record = FALSE
