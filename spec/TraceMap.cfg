INIT Init
NEXT Next
CONSTANT Defs <- TheDefs
CHECK_DEADLOCK FALSE
