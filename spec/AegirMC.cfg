SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Transparent Once FailsForAReason
PROPERTIES OnlySlots Repeatable Joint
