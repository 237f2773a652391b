SPECIFICATION TraceSpec
CONSTRAINT Progress
VIEW View
INVARIANT LockStep
INVARIANT AmfBoundary
INVARIANT NotEarly
INVARIANT PassOnce
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
