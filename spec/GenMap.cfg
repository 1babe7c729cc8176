INIT Init
NEXT Next
CONSTANT Defs <- NoDefs
CHECK_DEADLOCK FALSE
