SPECIFICATION Spec
INVARIANT Once
INVARIANT Chains
INVARIANT RowsWhole
INVARIANT IsGroup
