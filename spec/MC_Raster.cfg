SPECIFICATION Spec
INVARIANT Placed
INVARIANT Inverse
INVARIANT Complete
INVARIANT NorthFirst
POSTCONDITION Done
CHECK_DEADLOCK FALSE
