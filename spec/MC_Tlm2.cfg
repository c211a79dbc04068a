CONSTANTS
  Fams = {"b", "n"}
  MaxI = 1
  MaxT = 2
  MaxOps = 5
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Ends Open NonNeg OneKind
CHECK_DEADLOCK FALSE
