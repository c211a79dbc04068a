CONSTANTS
 MaxTime = 3
 MaxRaise = 2
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NeverEndsHeld Alone Own Together NoDeadlock
CHECK_DEADLOCK FALSE
