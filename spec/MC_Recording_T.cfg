CONSTANTS
  MaxOps = 6
  NK = 2
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Life AttrsInside Times Handles
CHECK_DEADLOCK FALSE
