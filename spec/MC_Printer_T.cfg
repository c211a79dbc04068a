CONSTANT MaxItems = 4
INIT Init
NEXT Next
VIEW View
INVARIANTS Emit Nested Limited Direct NoCycle RefsOnly
CHECK_DEADLOCK FALSE
