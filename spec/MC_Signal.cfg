SPECIFICATION Spec
CONSTANT N = 8
CONSTANT Levels = {1, 2, 4}
CONSTANT Sens = 6
INVARIANT ScanIsLaw
INVARIANT Mirrored
INVARIANT Scaled
INVARIANT Dual
INVARIANT Distinct
INVARIANT NotMissed
INVARIANT SlopeLaw
INVARIANT RampLaw
INVARIANT VertexLaw
CHECK_DEADLOCK FALSE
