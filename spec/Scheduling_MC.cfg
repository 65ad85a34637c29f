INIT Init
NEXT Next
CONSTANTS Deep = FALSE
CONSTANTS MaxPauses = 1
CONSTRAINT FewPauses
INVARIANTS InvLifecycle InvPrecedence InvConserved InvCapacity InvBranches InvGoalTerminal
CHECK_DEADLOCK FALSE
