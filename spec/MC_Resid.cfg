SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANT ZeroSum
INVARIANT ZeroIff
INVARIANT ShiftInv
INVARIANT MirrorInv
INVARIANT Normal
CHECK_DEADLOCK FALSE
