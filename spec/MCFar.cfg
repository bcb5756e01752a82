SPECIFICATION Spec
CONSTANTS
  Base = 3
  MaxSteps = 3
INVARIANT Exact
CHECK_DEADLOCK FALSE
