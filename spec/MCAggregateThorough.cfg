SPECIFICATION Spec
CONSTANTS
  Lbls = {"a", "b"}
  Steps = {0, 1}
  MaxEv = 4
  MaxNow = 6
  Limit = 2
INVARIANT PointsRight
INVARIANT InOrder
INVARIANT ExtremesRight
INVARIANT Describable
CHECK_DEADLOCK FALSE
