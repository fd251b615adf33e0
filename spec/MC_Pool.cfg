INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Subset
INVARIANT AsLayer
INVARIANT EdgeOk
