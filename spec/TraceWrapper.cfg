SPECIFICATION TSpec
CONSTANT N = 0
CHECK_DEADLOCK FALSE
