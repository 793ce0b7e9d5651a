SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANT NoClobber
INVARIANT OthersKept
INVARIANT NothingLost
CHECK_DEADLOCK FALSE
