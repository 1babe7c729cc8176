INIT Init
NEXT Next
INVARIANT Freshness
CHECK_DEADLOCK FALSE
