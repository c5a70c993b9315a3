SPECIFICATION Spec
INVARIANT Inv NoneMissed Independent
CONSTANTS Ids = {"a"}  Cap = 2  Lvs = {0, 1, 2}  Amts = {1, 2}  Depth = 4  Emit = TRUE
CHECK_DEADLOCK FALSE
