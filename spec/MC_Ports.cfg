CONSTANTS
  Kinds = {"chain", "up", "many", "bounds"}
  MaxConn = 4
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Bound Served NeverPortBelowExport
CHECK_DEADLOCK FALSE
