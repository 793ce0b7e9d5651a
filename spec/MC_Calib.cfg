SPECIFICATION Spec
INVARIANT Ordered
INVARIANT Ideal
