INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT OnlyTheExtension
INVARIANT Inside
INVARIANT Complete
INVARIANT Adjoint
