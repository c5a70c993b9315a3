INIT Init
NEXT Next
INVARIANT Inv NoWindow
CONSTANTS N = 4  Vals = {0, 1, 2}  Thr = 1  Steps = {1, 3}  Lens = {0, 2, 5}  Delays = {0, 1, 4}  MaxT = 14
CHECK_DEADLOCK FALSE
