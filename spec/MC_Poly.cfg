SPECIFICATION Spec
INVARIANT Within
INVARIANT NoHole
INVARIANT Whole
INVARIANT Ends
