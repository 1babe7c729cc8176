INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Agrees Same Named NoGuess
