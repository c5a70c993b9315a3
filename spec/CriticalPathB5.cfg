INIT Init
NEXT Next
INVARIANT Meaning
CONSTANTS N = 5  T = 4  Mod = 97
CHECK_DEADLOCK FALSE
