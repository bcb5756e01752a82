SPECIFICATION Spec
CONSTANTS
  Ths = {1, 2, 3, 4}
  Last = 4
INVARIANT Right
INVARIANT Mapped
CHECK_DEADLOCK FALSE
