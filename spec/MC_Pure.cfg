SPECIFICATION Spec
CONSTANT Ids = {1, 2, 3}
CONSTANT Threads = {1, 2}
CONSTANT MaxCalls = 5
INVARIANT Quiet
INVARIANT Alone
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
