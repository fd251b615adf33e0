INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Components_
INVARIANT Magnitude_
INVARIANT Amount
INVARIANT Threshold
