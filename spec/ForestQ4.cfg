INIT Init
NEXT Next
CONSTANTS N = 4  Mod = 611
CHECK_DEADLOCK FALSE
