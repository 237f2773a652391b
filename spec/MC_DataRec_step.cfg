SPECIFICATION Spec
CONSTANTS
 Tmax = 8
 Budget = 4
 Freq = "step"
INVARIANTS Ordered Whole EveryDue OnlyChanges Steps Future
CHECK_DEADLOCK FALSE
