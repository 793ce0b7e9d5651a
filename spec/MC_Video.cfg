SPECIFICATION Spec
CONSTANT MaxReads = 6
INVARIANT ClosedForm
INVARIANT InOrder
INVARIANT OnceReleased
INVARIANT NoReadAfterEsc
PROPERTY Ends
CHECK_DEADLOCK FALSE
