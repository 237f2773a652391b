SPECIFICATION MCSpec
CONSTANTS Budget = 2
 Term = 4
INVARIANT LockStep
INVARIANT AmfWithin
INVARIANT AmfBoundary
INVARIANT NotEarly
INVARIANT PassOnce
INVARIANT Exact
PROPERTY MainMonotone
CHECK_DEADLOCK TRUE
