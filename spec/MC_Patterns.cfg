SPECIFICATION Spec
CONSTANT MaxSide = 12
INVARIANT Closed
INVARIANT InMargin
INVARIANT Complete
CHECK_DEADLOCK FALSE
