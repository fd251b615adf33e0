INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Sorted
INVARIANT Median
INVARIANT Extremes
INVARIANT Whole
INVARIANT Ramp
