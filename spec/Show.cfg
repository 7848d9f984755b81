SPECIFICATION ShowSpec
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
