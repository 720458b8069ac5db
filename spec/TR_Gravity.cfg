SPECIFICATION TraceSpec
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
CONSTANT Planned <- GravPlan
CONSTANT Clause <- GravClause
