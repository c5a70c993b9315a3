INIT Init
NEXT Next
CONSTANTS N = 3  Mod = 1
CHECK_DEADLOCK FALSE
