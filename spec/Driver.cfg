SPECIFICATION DSpec
INVARIANTS Honest NoGraph TouchedFirst OneBuild CodePassedOn
CHECK_DEADLOCK FALSE
