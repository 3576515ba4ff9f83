SPECIFICATION Spec
CONSTANTS Threads = {t1, t2}
 Adds = 2
 MaxOps = 2
 SignalFirst = FALSE
 NoResignal = FALSE
 ClearAlways = FALSE
INVARIANTS Once NeverRemoved InOrder NoLostWakeup
PROPERTY AllRun
CHECK_DEADLOCK FALSE
