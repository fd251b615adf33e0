INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Printed
INVARIANT Positive
INVARIANT Further
INVARIANT Larger
INVARIANT Denser
INVARIANT Similar
INVARIANT Turned
