SPECIFICATION Spec
CONSTANTS MaxStart = 6
 MaxFail = 8
 NoRearm = FALSE
 LateClear = FALSE
 NoStopTimer = FALSE
 StopFlagEarly = FALSE
INVARIANTS Trying OneAttempt Stopped NoAttemptStopped Nested Listed
CHECK_DEADLOCK FALSE
