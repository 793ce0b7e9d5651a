SPECIFICATION Spec
INVARIANT FlatRegular
INVARIANT OrderOK
INVARIANT SquareOK
