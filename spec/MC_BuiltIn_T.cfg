CONSTANTS
  Accs = {"RO", "RW", "RC", "RS", "WRC", "WRS", "WC", "WS", "WSRC", "WCRS", "W1C", "W1S", "W1T", "W0C", "W0S", "W0T", "W1SRC", "W1CRS", "W0SRC", "W0CRS", "WO", "WOC", "WOS", "W1", "WO1"}
  Seqs <- TSeqs
  Devs = {"none", "rst", "stuck0", "stuck1", "pol", "swap", "mstuck0", "mstuck1", "malias", "mbd"}
  MaxN = 3
  MaxSize = 4
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NoAlarm Mirror Reported
CHECK_DEADLOCK FALSE
