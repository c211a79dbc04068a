CONSTANTS
  MaxItems = 2
  Widths = {0, 1, 3}
INIT Init
NEXT Next
ACTION_CONSTRAINT Emit
INVARIANTS RoundTrip SizeIsSum GroupsTell
CHECK_DEADLOCK FALSE
