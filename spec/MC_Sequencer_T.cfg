CONSTANTS
 MaxOps = 16
 MaxTime = 2
 MaxItems = 4
 Calls = {"next", "get", "try", "peek"}
 WithRsp = TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS ExactlyOnceInOrder OneAtATime Selected Queue InStep
CHECK_DEADLOCK FALSE
