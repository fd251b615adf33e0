INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Horner_
INVARIANT Powers
INVARIANT Prod_
INVARIANT Shapes
