CONSTANTS
  Procs = {1, 2, 3}
  MaxKeys = 2
  MaxOps = 6
  MaxN = 2
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Conserved NonNegative NoIdleGrant
CHECK_DEADLOCK FALSE
