SPECIFICATION Spec
CONSTANTS
 N = 2
 Weights <- W
INVARIANTS Agrees NoStuck Meaning
CHECK_DEADLOCK FALSE
