CONSTANTS
  Own <- MCOwn
  Inherit = FALSE
  Capped = FALSE
INIT Init
NEXT Next
INVARIANTS NoHole Agrees
CHECK_DEADLOCK FALSE
