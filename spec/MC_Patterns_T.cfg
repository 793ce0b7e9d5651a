SPECIFICATION Spec
CONSTANT MaxSide = 17
INVARIANT Closed
INVARIANT InMargin
INVARIANT Complete
CHECK_DEADLOCK FALSE
