SPECIFICATION Spec
CONSTANTS
  MaxStrings = 2
  MaxParts = 2
  MaxEvents = 2
INVARIANT GivesBack
CHECK_DEADLOCK FALSE
