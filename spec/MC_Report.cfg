CONSTANTS
  MaxOps = 2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS Settings
CHECK_DEADLOCK FALSE
