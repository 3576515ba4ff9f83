SPECIFICATION Spec
CONSTANTS MaxStart = 3
 MaxFail = 3
 NoRearm = FALSE
 LateClear = FALSE
 NoStopTimer = FALSE
 StopFlagEarly = FALSE
INVARIANTS Trying OneAttempt Stopped NoAttemptStopped Nested Listed
CHECK_DEADLOCK FALSE
