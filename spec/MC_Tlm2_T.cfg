CONSTANTS
  Fams = {"b", "n"}
  MaxI = 2
  MaxT = 2
  MaxOps = 7
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Ends Open NonNeg OneKind
CHECK_DEADLOCK FALSE
