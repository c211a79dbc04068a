CONSTANTS
  Widths = {1, 2, 4, 8}
  Ends = {1, 2, 3, 4}
  MaxOps = 3
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS Placement Sides
CHECK_DEADLOCK FALSE
