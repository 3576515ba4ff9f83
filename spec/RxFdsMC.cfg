SPECIFICATION Spec
CONSTANTS Lens = {1, 3}
 MaxFds = 2
 MaxMsgs = 3
 MaxCap = 4
 OneTable = FALSE
 Resend = FALSE
INVARIANTS Own NoLeak Clean
CHECK_DEADLOCK FALSE
