CONSTANTS MaxT = 3
MaxCmd = 5
Hold = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK NothingBad OnTime Gone FiredOnce
PROPERTIES HoldStays Deact
CHECK_DEADLOCK FALSE
