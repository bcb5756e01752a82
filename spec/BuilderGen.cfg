SPECIFICATION MSpec
CONSTANTS
  MaxCalls = 6
  Emitting = TRUE
CHECK_DEADLOCK FALSE
