CONSTANTS
  MaxOps = 5
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NoValueOnlyUnset
PROPERTIES Kept One ReadLocks
CHECK_DEADLOCK FALSE
