INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS Mod = 1
CHECK_DEADLOCK FALSE
