SPECIFICATION Spec
CONSTANT N = 2
INVARIANT Agree
INVARIANT Announced
INVARIANT Honest
INVARIANT AtMostOnce
CHECK_DEADLOCK FALSE
