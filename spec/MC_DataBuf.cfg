SPECIFICATION Spec
CONSTANTS
 M = 3
 N = 7
 Ring = FALSE
INVARIANTS InOrder Complete Ends
PROPERTY Finishes
CHECK_DEADLOCK FALSE
