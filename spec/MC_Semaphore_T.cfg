CONSTANTS
  Procs = {1, 2, 3}
  MaxKeys = 3
  MaxOps = 9
  MaxN = 3
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Conserved NonNegative NoIdleGrant
CHECK_DEADLOCK FALSE
