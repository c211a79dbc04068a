CONSTANTS
  PAlpha = {"a", "b", "*", "+", "?", "."}
  SAlpha = {"a", "b", "."}
  MaxP = 4
  MaxS = 4
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS WholeString Ends StarStar Literal
CHECK_DEADLOCK FALSE
