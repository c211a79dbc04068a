CONSTANTS
 MaxOps = 2
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS FixedPoint
CHECK_DEADLOCK FALSE
