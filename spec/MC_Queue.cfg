CONSTANTS
  MaxOps = 6
  MaxLen = 3
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS PushPop InsDel SliceAll
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
