SPECIFICATION Spec
CONSTANTS
  Fields = {"caps", "index", "width"}
  MaxUpdates = 3
INVARIANT Consistent
CHECK_DEADLOCK FALSE
