CONSTANTS MaxArgs = 2
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS LatestWins Untouched Overrides Strings Hex Fixed NoComplaint
CHECK_DEADLOCK FALSE
