SPECIFICATION Spec
INVARIANT CovOut
POSTCONDITION Done
CHECK_DEADLOCK FALSE
