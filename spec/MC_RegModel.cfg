CONSTANTS
  Accs = {"RW", "RO", "W1C", "W0T", "RC", "W1"}
  MaxOps = 3
  Values <- V4
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS MirrorIsDevice Settled Reaches SetOnly Honest
CHECK_DEADLOCK FALSE
