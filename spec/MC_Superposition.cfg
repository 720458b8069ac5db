SPECIFICATION Spec
INVARIANT SameWire
INVARIANT SameEnds
INVARIANT Boundary
INVARIANT SameBox
POSTCONDITION Done
CHECK_DEADLOCK FALSE
