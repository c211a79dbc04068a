CONSTANTS
 MaxSets = 6
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS LastWins RunTimeWins
CHECK_DEADLOCK FALSE
