SPECIFICATION Spec
CONSTANTS
  Events = 3
  Data = 3
  Index = 3
  Emitting = FALSE
INVARIANTS Together Complete
CHECK_DEADLOCK FALSE
