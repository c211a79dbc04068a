CONSTANTS
  MaxComps = 4
  MaxOps = 1
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS UniqueNames FoundByName DepthIsDots ForestOk EachOnce
CHECK_DEADLOCK FALSE
