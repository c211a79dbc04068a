CONSTANTS
 MaxOps = 3
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS Winner LastWrite
CHECK_DEADLOCK FALSE
