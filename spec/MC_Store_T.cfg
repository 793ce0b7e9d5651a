SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANT NoClobber
INVARIANT OthersKept
INVARIANT NothingLost
CHECK_DEADLOCK FALSE
