INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT WidthsDoNotMatter
INVARIANT OnlyDocumented
