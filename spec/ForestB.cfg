INIT Init
NEXT Next
CONSTANTS N = 4  Mod = 40
CHECK_DEADLOCK FALSE
