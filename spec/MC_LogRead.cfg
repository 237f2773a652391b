SPECIFICATION Spec
CONSTANTS
 MaxT = 4
 Kind = "pres"
INVARIANTS Once Matched
CHECK_DEADLOCK FALSE
