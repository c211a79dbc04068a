CONSTANTS
  Caps = {1, 2, 3}
  Vals = {1, 2}
  MaxOps = 7
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS SameAsDevice Bounded Quiet
CHECK_DEADLOCK FALSE
