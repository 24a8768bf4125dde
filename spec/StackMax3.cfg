SPECIFICATION Spec
CONSTANTS
 N = 3
 Weights <- W
INVARIANTS Agrees NoStuck Meaning
CHECK_DEADLOCK FALSE
