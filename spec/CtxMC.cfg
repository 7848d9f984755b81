SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Whole PlainDefined Typed
PROPERTIES Isolated StaysDefined CacheKept
