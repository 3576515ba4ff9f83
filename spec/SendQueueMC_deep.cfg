SPECIFICATION Spec
CONSTANTS MaxSends = 6
 MaxRoom = 4
 Bypass = FALSE
 AbortFirst = FALSE
 FromStart = FALSE
 QeAlways = FALSE
 KeepCbs = FALSE
INVARIANTS Prefix Whole Order Status AllDone Qe
CHECK_DEADLOCK FALSE
