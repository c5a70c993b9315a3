CONSTANTS Mod = 31 Numbers = {1, 2}
  Kinds = {"go"}
INIT Init
NEXT Next
INVARIANTS Bound Located
CHECK_DEADLOCK FALSE
