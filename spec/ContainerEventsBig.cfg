SPECIFICATION Spec
INVARIANT Inv NoneMissed Independent
CONSTANTS Ids = {"a"}  Cap = 2  Lvs = {0, 1, 2}  Amts = {1, 2}  Depth = 6  Emit = FALSE
CHECK_DEADLOCK FALSE
