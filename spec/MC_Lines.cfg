SPECIFICATION Spec
CONSTANT Sizes = {4, 9, 15}
INVARIANT Start
INVARIANT InFrame
INVARIANT EndReached
INVARIANT Advance
INVARIANT Transposed
CHECK_DEADLOCK FALSE
