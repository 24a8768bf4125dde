SPECIFICATION Spec
CONSTANTS
 N = 3
 Weights <- W
INVARIANTS Agrees Emit
CHECK_DEADLOCK FALSE
