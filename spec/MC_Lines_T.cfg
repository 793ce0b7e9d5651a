SPECIFICATION Spec
CONSTANT Sizes = {4, 7, 9, 12, 15, 22, 31}
INVARIANT Start
INVARIANT InFrame
INVARIANT EndReached
INVARIANT Advance
INVARIANT Transposed
CHECK_DEADLOCK FALSE
