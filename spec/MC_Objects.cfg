CONSTANTS
  MaxObj = 3
  MaxOps = 5
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS CloneSeparate CloneShape CloneEqual SelfEqual
CHECK_DEADLOCK FALSE
