SPECIFICATION TraceSpec
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
CONSTANT Planned <- DislPlan
CONSTANT Clause <- DislClause
