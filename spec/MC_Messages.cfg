SPECIFICATION Spec
CONSTANTS K = 3
 Cnt = 2
 Togs = 2
INVARIANTS Result SameOrder NoTwice Ends
CHECK_DEADLOCK FALSE
