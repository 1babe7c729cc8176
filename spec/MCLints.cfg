CONSTANTS
  Own <- MCOwn
  Inherit = TRUE
  Capped = FALSE
INIT Init
NEXT Next
INVARIANTS Silent Agrees
CHECK_DEADLOCK FALSE
