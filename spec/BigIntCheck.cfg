SPECIFICATION Spec
CONSTANT Steps = 3
INVARIANT Agree
CHECK_DEADLOCK FALSE
