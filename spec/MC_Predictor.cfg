CONSTANTS
  Accs = {"W1C"}
  Ens = {2}
  MaxOps = 4
  MaxWild = 2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS Mirrors Incomplete
CHECK_DEADLOCK FALSE
