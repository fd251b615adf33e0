INIT Init
NEXT Next
INVARIANT Wf
CHECK_DEADLOCK FALSE
