CONSTANTS
  Accs = {"W1C", "RC"}
  Ens = {1, 2}
  MaxOps = 6
  MaxWild = 3
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS Mirrors Incomplete
CHECK_DEADLOCK FALSE
