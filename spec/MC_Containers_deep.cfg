SPECIFICATION Spec
CONSTANTS Vals = {1, 2} Keys = {"x", "y"} Depth = 5
INVARIANT TypeOK
PROPERTIES Counts Others
CHECK_DEADLOCK FALSE
