SPECIFICATION Spec
CONSTANTS
  Events = 4
  Data = 4
  Index = 3
  Emitting = FALSE
INVARIANTS Together Complete
CHECK_DEADLOCK FALSE
