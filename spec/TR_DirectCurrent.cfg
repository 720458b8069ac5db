SPECIFICATION TraceSpec
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
CONSTANT Planned <- DCPlan
CONSTANT Clause <- DCClause
