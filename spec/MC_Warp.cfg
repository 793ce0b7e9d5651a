SPECIFICATION Spec
INVARIANT InFrame
INVARIANT CentreFix
INVARIANT Window
INVARIANT RadialMono
