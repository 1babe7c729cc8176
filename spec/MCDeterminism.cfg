CONSTANT MaxLen = 4
INIT Init
NEXT Next
INVARIANTS Decides Prefix
CHECK_DEADLOCK FALSE
