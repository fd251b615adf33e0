INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT ShapeLaw
INVARIANT LiftLaw
INVARIANT ExpandLaw
INVARIANT SpecLaw
