CONSTANTS
 Thrs = {0, 1, 2, 3}
 MaxOps = 6
 MaxW = 4
 MaxTime = 2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS NeverFull CountIsWaiting OpenOnlyWithoutAuto
CHECK_DEADLOCK FALSE
