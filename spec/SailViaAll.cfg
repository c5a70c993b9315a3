CONSTANTS Mod = 11 Numbers = {1, 2}
  Kinds = {"via", "path", "point", "route"}
INIT Init
NEXT Next
INVARIANTS Bound Located
CHECK_DEADLOCK FALSE
