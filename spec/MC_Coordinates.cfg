SPECIFICATION Spec
INVARIANT ZeroOK
CONSTRAINT Tally
POSTCONDITION Done
CHECK_DEADLOCK FALSE
CONSTANT NSamples = 120
CONSTANT Enough = 3
CONSTANT Identities <- Ids
CONSTANT Refuted <- Bad
CONSTANT Export <- Ex
CONSTANT Plan <- CooPlan
