CONSTANTS Mod = 5 Numbers = {1, 2, 3}
  Kinds = {"go"}
INIT Init
NEXT Next
INVARIANTS Bound Located
CHECK_DEADLOCK FALSE
