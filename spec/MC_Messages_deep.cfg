SPECIFICATION Spec
CONSTANTS K = 4
 Cnt = 2
 Togs = 4
INVARIANTS Result SameOrder NoTwice Ends
CHECK_DEADLOCK FALSE
