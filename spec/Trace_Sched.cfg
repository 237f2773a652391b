SPECIFICATION TraceSpec
CONSTRAINT Progress
INVARIANT TypeOK
INVARIANT NoneLeftBehind
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
