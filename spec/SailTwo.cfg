CONSTANTS Mod = 29 Numbers = {2}
  Kinds = {"route", "point", "line"}
INIT Init
NEXT Next
INVARIANTS Bound Located
CHECK_DEADLOCK FALSE
