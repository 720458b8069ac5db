SPECIFICATION GSpec
INVARIANT ValidIds
PROPERTY Frame
PROPERTY OtherKept
POSTCONDITION Done
CHECK_DEADLOCK FALSE
