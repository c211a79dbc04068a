CONSTANT Depth = 4
INIT Init
NEXT Next
VIEW View
INVARIANTS Emit Product Rooted Missing Default ReadBack Differ Pure Elements
CHECK_DEADLOCK FALSE
