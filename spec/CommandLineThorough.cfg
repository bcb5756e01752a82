SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxArgs = 2
INVARIANT ReadsBack
CHECK_DEADLOCK FALSE
