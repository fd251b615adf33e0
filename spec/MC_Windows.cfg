INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Predicted
INVARIANT Counted
INVARIANT Correlated
INVARIANT SameRule
INVARIANT UnitStride
INVARIANT Conserved
