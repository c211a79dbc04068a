CONSTANTS
 MaxOps = 5
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Acyclic Preserved NoneAdded Placed
CHECK_DEADLOCK FALSE
