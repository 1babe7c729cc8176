INIT Init
NEXT Next
INVARIANT NoCapture Freshness
CHECK_DEADLOCK FALSE
