SPECIFICATION Spec
CONSTANTS MaxSends = 4
 MaxRoom = 3
 Bypass = FALSE
 AbortFirst = FALSE
 FromStart = FALSE
 QeAlways = FALSE
 KeepCbs = FALSE
INVARIANTS Prefix Whole Order Status AllDone Qe
CHECK_DEADLOCK FALSE
