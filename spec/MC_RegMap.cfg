CONSTANTS
  Widths = {1, 4}
  Ends = {1, 2}
  MaxOps = 2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS Placement Sides
CHECK_DEADLOCK FALSE
