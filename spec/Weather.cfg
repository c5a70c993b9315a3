INIT Init
NEXT Next
INVARIANT Inv NoWindow
CONSTANTS N = 4  Vals = {1, 2}  Thr = 1  Steps = {1, 3}  Lens = {0, 2}  Delays = {0, 3}  MaxT = 12
CHECK_DEADLOCK FALSE
