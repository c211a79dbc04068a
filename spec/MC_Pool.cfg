CONSTANTS
  MaxOps = 5
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NoDup PtrIn SeenAll Fresh
CHECK_DEADLOCK FALSE
