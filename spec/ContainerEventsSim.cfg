SPECIFICATION Spec
INVARIANT Inv NoneMissed Independent
CONSTANTS Ids = {"a", "b", "a_reservations"}  Cap = 3  Lvs = {1, 2}  Amts = {1, 2}  Depth = 14  Emit = TRUE
CHECK_DEADLOCK FALSE
