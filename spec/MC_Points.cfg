SPECIFICATION Spec
CONSTANT Sizes = {5, 8}
INVARIANT Sym
INVARIANT Inside
INVARIANT Shrinks
INVARIANT Flat
CHECK_DEADLOCK FALSE
