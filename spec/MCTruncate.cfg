SPECIFICATION Spec
CONSTANTS
  MaxPages = 7
INVARIANT Right
CHECK_DEADLOCK FALSE
