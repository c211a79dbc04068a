CONSTANTS
  MaxOps = 3
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS SevCounts IdCounts QuitCount Ends
CHECK_DEADLOCK FALSE
