SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Exact Conjugate Emit
