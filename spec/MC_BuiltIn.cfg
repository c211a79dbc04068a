CONSTANTS
  Accs = {"RW", "RC", "W1", "WO"}
  Seqs <- QSeqs
  Devs = {"none", "rst", "stuck0", "stuck1", "pol", "swap", "mstuck0", "mstuck1", "malias", "mbd"}
  MaxN = 2
  MaxSize = 3
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NoAlarm Mirror Reported
CHECK_DEADLOCK FALSE
