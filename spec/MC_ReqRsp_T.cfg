CONSTANTS
  Sizes = {0, 1, 2}
  MaxReq = 3
  MaxOps = 10
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS InOrder Capacity
CHECK_DEADLOCK FALSE
