INIT Init
NEXT Next
CONSTANTS N = 3  Mod = 5
CHECK_DEADLOCK FALSE
