CONSTANTS
  MaxOps = 3
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS Exactly Order
CHECK_DEADLOCK FALSE
