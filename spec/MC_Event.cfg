CONSTANTS
 MaxOps = 5
 MaxW = 3
 MaxTime = 2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS LevelRespected TriggerReachesAll CountBound
CHECK_DEADLOCK FALSE
