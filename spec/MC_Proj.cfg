SPECIFICATION Spec
INVARIANT Undone
INVARIANT LineKept
INVARIANT Unfolded
