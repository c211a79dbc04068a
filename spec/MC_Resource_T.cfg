CONSTANTS
 MaxOps = 4
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS Winner LastWrite
CHECK_DEADLOCK FALSE
