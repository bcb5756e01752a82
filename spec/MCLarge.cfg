SPECIFICATION Spec
CONSTANT Bound = 5
INVARIANT Through
CHECK_DEADLOCK FALSE
