CONSTANTS
  Caps = {0, 1, 2, 3, 4}
  Vals = {1, 2}
  MaxOps = 10
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS SameAsDevice Bounded Quiet
CHECK_DEADLOCK FALSE
