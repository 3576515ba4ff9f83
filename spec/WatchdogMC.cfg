SPECIFICATION Spec
CONSTANTS Delay = 2
 Steps = 3
 Horizon = 8
 NoCounter = FALSE
 NoReset = FALSE
 NoSignal = FALSE
INVARIANTS OnlyOverlong OncePerStep
PROPERTY Reported
CHECK_DEADLOCK FALSE
