SPECIFICATION Spec
CONSTANTS Threads = {t1, t2}
 Adds = 1
 MaxOps = 1
 SignalFirst = FALSE
 NoResignal = FALSE
 ClearAlways = FALSE
INVARIANTS Once NeverRemoved InOrder NoLostWakeup
PROPERTY AllRun
CHECK_DEADLOCK FALSE
