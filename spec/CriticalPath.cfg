INIT Init
NEXT Next
INVARIANT Meaning
CONSTANTS N = 3  T = 3  Mod = 1
CHECK_DEADLOCK FALSE
