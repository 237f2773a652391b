SPECIFICATION Spec
CONSTANTS
 MaxT = 5
 Kind = "pres"
INVARIANTS Once Matched
CHECK_DEADLOCK FALSE
