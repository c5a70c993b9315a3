INIT Init
NEXT Next
INVARIANT Meaning
CONSTANTS N = 4  T = 4  Mod = 97
CHECK_DEADLOCK FALSE
