SPECIFICATION Spec
INVARIANT OwnSlot
INVARIANT NoClash
INVARIANT Full
INVARIANT ShapeSize
INVARIANT Inverse
PROPERTY Ends
POSTCONDITION Done
CHECK_DEADLOCK FALSE
