CONSTANTS
  Widths = {1, 2, 4}
  Bas = {TRUE, FALSE}
  Revs = {TRUE, FALSE}
  Ends = {1, 2}
  Sizes = {12, 32, 64}
  MaxOps = 2
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS ReadYourWrite Covers Atomic Apart
CHECK_DEADLOCK FALSE
