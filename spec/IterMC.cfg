SPECIFICATION OSpec
CHECK_DEADLOCK FALSE
INVARIANTS Yields Counts Ends
