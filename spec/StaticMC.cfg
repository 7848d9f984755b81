SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Correct
INVARIANT Out
