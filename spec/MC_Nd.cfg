INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT SetPart
INVARIANT Untouched
INVARIANT Intact
INVARIANT Whole
INVARIANT OneByOne
