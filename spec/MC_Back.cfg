SPECIFICATION Spec
INVARIANT InRange
INVARIANT Full
INVARIANT NoZero
INVARIANT Speck
CHECK_DEADLOCK FALSE
