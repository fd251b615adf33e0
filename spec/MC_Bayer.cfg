INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Route
INVARIANT Places
INVARIANT Once
INVARIANT Halved
INVARIANT Kept
INVARIANT RampOk
INVARIANT Flat_
INVARIANT Facts
