SPECIFICATION VSpec
CONSTANT N = 0
CHECK_DEADLOCK FALSE
