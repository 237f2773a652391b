CONSTANTS MaxT = 3
MaxCmd = 3
Hold = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK NothingBad OnTime Gone FiredOnce
PROPERTIES HoldStays Deact
CHECK_DEADLOCK FALSE
