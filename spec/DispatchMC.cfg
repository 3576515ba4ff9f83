SPECIFICATION Spec
CONSTANTS Fds = {1, 2}
 MaxSteps = 2
 MaxOps = 5
 NoStamp = FALSE
 NoMask = FALSE
 KeepRemoved = FALSE
INVARIANTS Right OnceEach
CHECK_DEADLOCK FALSE
