SPECIFICATION Spec
CONSTANT N = 3
INVARIANT Agree
INVARIANT Announced
INVARIANT Honest
INVARIANT AtMostOnce
CHECK_DEADLOCK FALSE
