CONSTANTS
  Widths = {1, 4}
  Bas = {TRUE}
  Revs = {FALSE}
  Ends = {1, 2}
  Sizes = {32}
  MaxOps = 2
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS ReadYourWrite Covers Atomic Apart
CHECK_DEADLOCK FALSE
