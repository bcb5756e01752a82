SPECIFICATION QSpec
CONSTANTS
  MaxT = 4
  Emitting = FALSE
INVARIANTS Order PointWise Apart OneKind Longer
CHECK_DEADLOCK FALSE
