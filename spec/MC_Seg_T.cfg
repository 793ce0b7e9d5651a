SPECIFICATION Spec
CONSTANT IH = 3
CONSTANT IW = 5
INVARIANT NoBorder
INVARIANT Shrinks
INVARIANT Thick
INVARIANT Stable
INVARIANT NoContrast
INVARIANT Sym
CHECK_DEADLOCK FALSE
