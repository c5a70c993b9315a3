CONSTANTS Mod = 7 Numbers = {1}
  Kinds = {"route", "point", "line"}
INIT Init
NEXT Next
INVARIANTS Bound Located
CHECK_DEADLOCK FALSE
