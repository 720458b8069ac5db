SPECIFICATION TraceSpec
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
CONSTANT Planned <- CylPlan
CONSTANT Clause <- CylClause
