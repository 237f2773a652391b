SPECIFICATION Spec
CONSTANTS
 Tmax = 12
 Budget = 6
 Freq = "always"
INVARIANTS Ordered Whole EveryDue OnlyChanges Steps Future
CHECK_DEADLOCK FALSE
