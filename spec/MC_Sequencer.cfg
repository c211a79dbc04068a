CONSTANTS
 MaxOps = 9
 MaxTime = 2
 MaxItems = 3
 Calls = {"next", "get", "try", "peek"}
 WithRsp = FALSE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS ExactlyOnceInOrder OneAtATime Selected Queue InStep
CHECK_DEADLOCK FALSE
