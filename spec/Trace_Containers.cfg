SPECIFICATION TraceSpec
CONSTRAINT Progress
INVARIANT TypeOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
