CONSTANTS MaxT = 2
MaxCmd = 4
Hold = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK NothingBad OnTime Gone FiredOnce
PROPERTIES HoldStays Deact
CHECK_DEADLOCK FALSE
