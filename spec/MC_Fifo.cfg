CONSTANTS
 Sizes = {0, 1, 2}
 Procs = {1, 2, 3}
 MaxPuts = 3
 MaxOps = 7
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS FifoExactlyOnce Bounded Progress
CHECK_DEADLOCK FALSE
