CONSTANTS
  PAlpha = {"a", "b", "*", "+", "?", "."}
  SAlpha = {"a", "b", "."}
  MaxP = 3
  MaxS = 3
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS WholeString Ends StarStar Literal
CHECK_DEADLOCK FALSE
