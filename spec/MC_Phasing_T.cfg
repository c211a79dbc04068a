CONSTANTS
 MaxTime = 3
 MaxRaise = 5
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NeverEndsHeld Serial Prompt NoDeadlock
CHECK_DEADLOCK FALSE
