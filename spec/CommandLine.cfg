SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxArgs = 2
INVARIANT ReadsBack
CHECK_DEADLOCK FALSE
