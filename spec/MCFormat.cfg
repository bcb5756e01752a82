SPECIFICATION Spec
CONSTANTS
  MaxStrings = 2
  MaxParts = 2
  MaxEvents = 1
INVARIANT GivesBack
CHECK_DEADLOCK FALSE
