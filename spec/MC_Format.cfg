INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Prefix
INVARIANT Nested_
INVARIANT RoundTrip
