SPECIFICATION Spec
CONSTANT Slots = {0, 1, 2}
CONSTANT Depth = 4
INVARIANT LastWins
INVARIANT Untouched
CHECK_DEADLOCK FALSE
