SPECIFICATION MSpec
CONSTANT B = 2
INVARIANT TypeOK
INVARIANT NoneLeftBehind
INVARIANT WithinFrame
INVARIANT Exact
INVARIANT Frames
INVARIANT ShutdownOnce
PROPERTY TimeMonotone
PROPERTY FrozenTime
PROPERTY NoCallRemoved
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
