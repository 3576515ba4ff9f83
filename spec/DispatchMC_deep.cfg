SPECIFICATION Spec
CONSTANTS Fds = {1, 2, 3}
 MaxSteps = 2
 MaxOps = 4
 NoStamp = FALSE
 NoMask = FALSE
 KeepRemoved = FALSE
INVARIANTS Right OnceEach
CHECK_DEADLOCK FALSE
