SPECIFICATION Spec
INVARIANT InOrder
INVARIANT Fresh
INVARIANT Complete
INVARIANT FlatWalk
INVARIANT CInverse
PROPERTY Ends
POSTCONDITION Done
CHECK_DEADLOCK FALSE
