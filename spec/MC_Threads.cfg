SPECIFICATION MCSpec
CONSTANTS Budget = 1
 Term = 2
INVARIANT LockStep
INVARIANT AmfWithin
INVARIANT AmfBoundary
INVARIANT NotEarly
INVARIANT PassOnce
INVARIANT Exact
PROPERTY MainMonotone
CHECK_DEADLOCK TRUE
