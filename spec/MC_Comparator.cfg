CONSTANTS
  N = 2
  MaxItems = 3
  Kinds = {"builtin", "class", "alg"}
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS InOrder ErrOk NoneLost
CHECK_DEADLOCK FALSE
