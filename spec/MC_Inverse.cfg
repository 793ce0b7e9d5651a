SPECIFICATION Spec
INVARIANT Physical
INVARIANT RoundTrip
