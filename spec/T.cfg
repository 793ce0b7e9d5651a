SPECIFICATION TSpec
INVARIANT Report
INVARIANT Done
