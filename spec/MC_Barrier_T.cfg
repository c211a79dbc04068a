CONSTANTS
 Thrs = {0, 1, 2, 3}
 MaxOps = 9
 MaxW = 5
 MaxTime = 2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound

INVARIANTS NeverFull CountIsWaiting OpenOnlyWithoutAuto
CHECK_DEADLOCK FALSE
