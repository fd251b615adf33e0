INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Unmoved
INVARIANT InOrder
INVARIANT Shares
INVARIANT Moved
INVARIANT Pairs
INVARIANT Printed
