INIT Init
NEXT Next
CONSTANTS MaxHist = 11
CONSTRAINT Bounded
INVARIANTS InvMemory InvLength InvOutcome InvGoal InvApp
CHECK_DEADLOCK FALSE
