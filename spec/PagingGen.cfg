SPECIFICATION Spec
CONSTANTS
  Events = 3
  Data = 3
  Index = 2
  Emitting = TRUE
CHECK_DEADLOCK FALSE
