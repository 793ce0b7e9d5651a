SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANT ZeroSum
INVARIANT ZeroIff
INVARIANT ShiftInv
INVARIANT MirrorInv
INVARIANT Normal
CHECK_DEADLOCK FALSE
