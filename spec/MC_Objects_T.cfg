CONSTANTS
  MaxObj = 6
  MaxOps = 6
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS CloneSeparate CloneShape CloneEqual SelfEqual
CHECK_DEADLOCK FALSE
