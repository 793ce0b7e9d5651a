SPECIFICATION Spec
CONSTANT Sizes = {4, 5, 8, 11}
INVARIANT Sym
INVARIANT Inside
INVARIANT Shrinks
INVARIANT Flat
CHECK_DEADLOCK FALSE
