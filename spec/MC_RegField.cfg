CONSTANTS
  MaxOps = 4
  Rights = {"RW", "RO", "WO"}
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS ClearOnly SetOnly Kept Once Twice Drained Update
CHECK_DEADLOCK FALSE
