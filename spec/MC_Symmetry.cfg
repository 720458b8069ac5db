SPECIFICATION Spec
VIEW VIEWg
INVARIANT Orthogonal
INVARIANT Equivariant
INVARIANT Flips
POSTCONDITION Done
CHECK_DEADLOCK FALSE
