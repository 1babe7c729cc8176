CONSTANTS
  Own <- GenOwn
  Inherit = TRUE
  Capped <- GenCapped
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
