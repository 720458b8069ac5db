SPECIFICATION TraceSpec
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
CONSTANT Planned <- CooPlan
CONSTANT Clause <- CooClause
