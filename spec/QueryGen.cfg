SPECIFICATION QSpec
CONSTANTS
  MaxT = 3
  Emitting = TRUE
CHECK_DEADLOCK FALSE
