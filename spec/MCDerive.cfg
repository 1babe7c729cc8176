INIT Init
NEXT Next
INVARIANTS Agrees Sound Complete Merge NoDrop DropOnly
CHECK_DEADLOCK FALSE
