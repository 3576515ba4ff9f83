SPECIFICATION Spec
CONSTANTS Delay = 2
 Steps = 5
 Horizon = 14
 NoCounter = FALSE
 NoReset = FALSE
 NoSignal = FALSE
INVARIANTS OnlyOverlong OncePerStep
PROPERTY Reported
CHECK_DEADLOCK FALSE
