CONSTANTS Mod = 2 Numbers = {2}
  Kinds = {"route", "point", "line"}
INIT Init
NEXT Next
INVARIANTS Bound Located
CHECK_DEADLOCK FALSE
