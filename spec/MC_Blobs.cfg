SPECIFICATION Spec
INVARIANT Cover
INVARIANT Found
INVARIANT WholeKept
