CONSTANTS
 Trees <- MCTrees
 Drains <- MCDrains
 Counts = {1, 2}
 MaxTime = 3
 MaxOps = 5
 MaxTot = 4
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS TotalsExact NonNegative DrainOnlyWhenQuiet NoneForgotten
CHECK_DEADLOCK FALSE
