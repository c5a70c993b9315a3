INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS Mod = 40
CHECK_DEADLOCK FALSE
