SPECIFICATION Spec
CONSTANTS Vals = {1, 2} Keys = {"x", "y"} Depth = 4
INVARIANT TypeOK
PROPERTIES Counts Others
CHECK_DEADLOCK FALSE
