----------------------------- MODULE WatchdogMC -----------------------------
(* The algorithm of the watchdog, step by step: the loop thread enters and      *)
(* leaves the processing of steps under the mutex, the watchdog thread waits on *)
(* the condition with the deadline of the current step. A timed wait that       *)
(* expired may get the mutex back only much later.                              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Delay, Steps, Horizon,
          NoCounter,      \* variant: no counter of steps
          NoReset,        \* variant: monitoring goes on after a notification
          NoSignal        \* variant: entering does not signal the condition

VARIABLES now, lock,
          lpc, step, begin,                       \* loop thread: position, number of steps begun, time of the last
          mon, cnt, dl,                           \* shared: monitoring, counter, deadline
          wpc, wcnt, wdl, res,                    \* watchdog thread
          notes                                   \* notifications: <<step in progress (0: none), time since its beginning>>
vars == <<now, lock, lpc, step, begin, mon, cnt, dl, wpc, wcnt, wdl, res, notes>>

Init == /\ now = 0 /\ lock = "none" /\ lpc = "out" /\ step = 0 /\ begin = 0
        /\ mon = FALSE /\ cnt = 0 /\ dl = 0 /\ wpc = "lock" /\ wcnt = 0 /\ wdl = 0 /\ res = "none" /\ notes = <<>>

\* time goes on while nobody holds the mutex: the sections under it are short
Tick == /\ now < Horizon /\ lock = "none" /\ wpc # "lock"
        /\ now' = now + 1 /\ UNCHANGED <<lock, lpc, step, begin, mon, cnt, dl, wpc, wcnt, wdl, res, notes>>

\* the same, but with a watchdog thread that is late to get the mutex (scheduling)
Late == /\ now < Horizon /\ lock = "none" /\ wpc = "lock"
        /\ now' = now + 1 /\ UNCHANGED <<lock, lpc, step, begin, mon, cnt, dl, wpc, wcnt, wdl, res, notes>>

EnterLock == /\ lpc = "out" /\ step < Steps /\ lock = "none" /\ lock' = "loop" /\ lpc' = "enter"
             /\ UNCHANGED <<now, step, begin, mon, cnt, dl, wpc, wcnt, wdl, res, notes>>
Wake == IF wpc = "wait" THEN wpc' = "lock" /\ res' = "signal" ELSE UNCHANGED <<wpc, res>>
Enter == /\ lpc = "enter" /\ step' = step + 1 /\ begin' = now
         /\ mon' = TRUE /\ cnt' = (IF NoCounter THEN cnt ELSE cnt + 1) /\ dl' = now + Delay
         /\ (IF NoSignal THEN UNCHANGED <<wpc, res>> ELSE Wake)
         /\ lock' = "none" /\ lpc' = "in" /\ UNCHANGED <<now, wcnt, wdl, notes>>
LeaveLock == /\ lpc = "in" /\ lock = "none" /\ lock' = "loop" /\ lpc' = "leave"
             /\ UNCHANGED <<now, step, begin, mon, cnt, dl, wpc, wcnt, wdl, res, notes>>
Leave == /\ lpc = "leave" /\ mon' = FALSE /\ dl' = 0 /\ Wake
         /\ lock' = "none" /\ lpc' = "out" /\ UNCHANGED <<now, step, begin, cnt, wcnt, wdl, notes>>

\* watchdog thread
WLock == /\ wpc = "lock" /\ lock = "none" /\ lock' = "wd" /\ wpc' = "check"
         /\ UNCHANGED <<now, lpc, step, begin, mon, cnt, dl, wcnt, wdl, res, notes>>
WCheck == /\ wpc = "check"
          /\ IF res = "timeout" /\ mon /\ cnt = wcnt /\ now >= wdl
             THEN /\ notes' = Append(notes, <<step, IF lpc \in {"in"} THEN now - begin ELSE -1>>)
                  /\ mon' = NoReset
             ELSE UNCHANGED <<notes, mon>>
          /\ wcnt' = cnt /\ wdl' = dl /\ res' = "none"
          /\ wpc' = "sleep" /\ UNCHANGED <<now, lock, lpc, step, begin, cnt, dl>>
\* begins to wait (and releases the mutex): with the deadline if monitoring
WSleep == /\ wpc = "sleep" /\ wpc' = "wait" /\ res' = (IF mon THEN "timed" ELSE "none")
          /\ lock' = "none" /\ UNCHANGED <<now, lpc, step, begin, mon, cnt, dl, wcnt, wdl, notes>>
WTimeout == /\ wpc = "wait" /\ res = "timed" /\ now >= wdl /\ wpc' = "lock" /\ res' = "timeout"
            /\ UNCHANGED <<now, lock, lpc, step, begin, mon, cnt, dl, wcnt, wdl, notes>>

Wd == WLock \/ WCheck \/ WSleep \/ WTimeout
Next == Tick \/ Late \/ EnterLock \/ Enter \/ LeaveLock \/ Leave \/ Wd
Spec == Init /\ [][Next]_vars /\ WF_vars(Wd) /\ SF_vars(WLock) /\ WF_vars(Enter \/ Leave) /\ WF_vars(Tick \/ Late)

\* only during a step that lasts since the delay, and once for it
OnlyOverlong == \A i \in DOMAIN notes : notes[i][1] > 0 /\ notes[i][2] >= Delay
OncePerStep == \A i, j \in DOMAIN notes : i < j => notes[i][1] # notes[j][1]
\* a step that never ends is reported
Reported == \A k \in 1 .. Steps : (step = k /\ lpc = "in" /\ now - begin >= Delay) ~>
              (step > k \/ lpc # "in" \/ \E i \in DOMAIN notes : notes[i][1] = k)
=============================================================================
