SPECIFICATION TSpec
CONSTANT Base = 1048576
CHECK_DEADLOCK FALSE
