CONSTANTS
 MaxOps = 8
 MaxW = 3
 MaxTime = 2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound

INVARIANTS LevelRespected TriggerReachesAll CountBound
CHECK_DEADLOCK FALSE
