SPECIFICATION TSpec
POSTCONDITION TDone
CHECK_DEADLOCK FALSE
