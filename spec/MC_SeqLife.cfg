CONSTANTS
 MaxOps = 5
 MaxRuns = 2
 MaxTime = 1
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS Order Balanced KilledStays KidsFirst
CHECK_DEADLOCK FALSE
