INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Whole
INVARIANT Finite
INVARIANT Sign
INVARIANT Odd
INVARIANT Undone
INVARIANT AtZero
INVARIANT Grows
INVARIANT Broadcasts
