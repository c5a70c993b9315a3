INIT Init
NEXT Next
INVARIANT Conserved
PROPERTY Nothing
CHECK_DEADLOCK FALSE
