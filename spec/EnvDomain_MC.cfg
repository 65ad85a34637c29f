INIT Init
NEXT Next
CONSTANTS MaxHist = 7
CONSTRAINT Bounded
INVARIANTS InvMemory InvLength InvOutcome InvGoal InvApp
CHECK_DEADLOCK FALSE
