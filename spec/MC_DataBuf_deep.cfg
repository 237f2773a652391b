SPECIFICATION Spec
CONSTANTS
 M = 2
 N = 30
 Ring = FALSE
INVARIANTS InOrder Complete Ends
PROPERTY Finishes
CHECK_DEADLOCK FALSE
