INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Members
INVARIANT Rejected
INVARIANT Signs
INVARIANT Walked
INVARIANT Distinct_
