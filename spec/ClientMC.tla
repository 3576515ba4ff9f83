------------------------------ MODULE ClientMC ------------------------------
(* The life of a client context: attempts, retries, connection, stop (also      *)
(* from callbacks, deferred to the loop) and restart, with any failure of each  *)
(* resource. The loop runs one callback at a time; a callback of the user may   *)
(* call stop, and start once stopped.                                           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxStart,       \* number of successful starts
          MaxFail,        \* number of failures of resources
          NoRearm,        \* variant: a retry that can not be made is forgotten
          LateClear,      \* variant: the timer is cleared after the attempt
          NoStopTimer,    \* variant: the stop does not clear the timer
          StopFlagEarly   \* variant: the stop is over before the disconnection is notified

VARIABLES started, stopping, fd, conn, timer,
          idle,           \* deferred stops registered in the loop
          depth,          \* user callbacks in progress
          stack,          \* what remains to be done by the calls in progress
          ev,             \* notifications: "C", "D"
          starts, fails,
          attempts        \* attempts made since the last stop ended, while stopped
vars == <<started, stopping, fd, conn, timer, idle, depth, stack, ev, starts, fails, attempts>>

Init == /\ started = FALSE /\ stopping = FALSE /\ fd = FALSE /\ conn = FALSE /\ timer = FALSE /\ idle = 0
        /\ depth = 0 /\ stack = <<>> /\ ev = <<>> /\ starts = 0 /\ fails = 0 /\ attempts = 0

Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
At(x) == stack # <<>> /\ Top = x

\* client_start: fails for lack of a resource (result < 0), fails at once (timer), or is in progress
\* who = "user" or "timer"
Attempt(who) ==
  \/ /\ fd' = TRUE /\ UNCHANGED <<timer, fails, started>>                      \* in progress
  \/ /\ timer' = TRUE /\ UNCHANGED <<fd, fails, started>>                      \* refused at once: retry later
  \/ /\ fails < MaxFail /\ fails' = fails + 1                                  \* lack of resources
     /\ timer' = IF who = "timer" THEN ~NoRearm ELSE timer
     /\ started' = IF who = "user" THEN FALSE ELSE started                     \* reported to the user, who stops
     /\ UNCHANGED fd

Start == /\ ~started /\ starts < MaxStart /\ (stack = <<>> \/ At("user"))
         /\ ~stopping \/ StopFlagEarly
         /\ starts' = starts + 1 /\ attempts' = 0
         /\ \/ fd' = TRUE /\ started' = TRUE /\ UNCHANGED <<timer, fails>>
            \/ timer' = TRUE /\ started' = TRUE /\ UNCHANGED <<fd, fails>>
            \/ fails < MaxFail /\ fails' = fails + 1 /\ UNCHANGED <<fd, timer, started>>
         /\ UNCHANGED <<stopping, conn, idle, depth, stack, ev>>

\* pomp_ctx_stop
Stop == /\ (stack = <<>> \/ At("user")) /\ started /\ ~stopping
        /\ IF depth > 0
           THEN stopping' = TRUE /\ idle' = idle + 1 /\ UNCHANGED stack
           ELSE stopping' = TRUE /\ stack' = Append(stack, "stop1") /\ UNCHANGED idle
        /\ UNCHANGED <<started, fd, conn, timer, depth, ev, starts, fails, attempts>>

\* the stop itself: ends the connection (notified), the attempt and the timer
Stop1 == /\ At("stop1")
         /\ stopping' = (IF StopFlagEarly THEN FALSE ELSE stopping)
         /\ IF conn
            THEN /\ conn' = FALSE /\ ev' = Append(ev, "D") /\ depth' = depth + 1
                 /\ stack' = Append(Append(Rest, "stop2"), "user")
            ELSE stack' = Append(Rest, "stop2") /\ UNCHANGED <<conn, ev, depth>>
         /\ UNCHANGED <<started, fd, timer, idle, starts, fails, attempts>>
Stop2 == /\ At("stop2") /\ fd' = FALSE /\ timer' = (timer /\ NoStopTimer) /\ started' = FALSE /\ stopping' = FALSE
         /\ stack' = Rest /\ UNCHANGED <<conn, idle, depth, ev, starts, fails, attempts>>

\* end of a callback of the user
EndCb == /\ At("user") /\ stack' = Rest /\ depth' = depth - 1
         /\ UNCHANGED <<started, stopping, fd, conn, timer, idle, ev, starts, fails, attempts>>
\* after the disconnection was notified: retry unless stopping
After == /\ At("retry") /\ stack' = Rest /\ timer' = (IF started /\ ~stopping THEN TRUE ELSE timer)
         /\ UNCHANGED <<started, stopping, fd, conn, idle, depth, ev, starts, fails, attempts>>

\* the loop
Loop(a) == stack = <<>> /\ a
Idle == /\ idle > 0 /\ idle' = idle - 1 /\ stack' = <<"stop1">>
        /\ UNCHANGED <<started, stopping, fd, conn, timer, depth, ev, starts, fails, attempts>>
TimerFires == /\ timer
              /\ attempts' = IF started THEN attempts ELSE attempts + 1
              /\ IF LateClear
                 THEN /\ timer' = FALSE                   \* whatever the attempt armed
                      /\ \/ fd' = TRUE \/ fd' = fd
                      /\ UNCHANGED <<fails, started>>
                 ELSE \/ fd' = TRUE /\ timer' = FALSE /\ UNCHANGED <<fails, started>>
                      \/ timer' = TRUE /\ UNCHANGED <<fd, fails, started>>
                      \/ fails < MaxFail /\ fails' = fails + 1 /\ timer' = ~NoRearm /\ UNCHANGED <<fd, started>>
              /\ UNCHANGED <<stopping, conn, idle, depth, stack, ev, starts>>
\* the attempt succeeds, fails, or succeeds but no connection can be allocated
Complete == /\ fd /\ fd' = FALSE
            /\ \/ conn' = TRUE /\ ev' = Append(ev, "C") /\ depth' = depth + 1 /\ stack' = <<"user">> /\ UNCHANGED timer
               \/ timer' = TRUE /\ UNCHANGED <<conn, ev, depth, stack>>
            /\ UNCHANGED <<started, stopping, idle, starts, fails, attempts>>
Msg == /\ conn /\ depth' = depth + 1 /\ stack' = <<"user">>
       /\ UNCHANGED <<started, stopping, fd, conn, timer, idle, ev, starts, fails, attempts>>
Lost == /\ conn /\ Len(ev) < 6 /\ conn' = FALSE /\ ev' = Append(ev, "D") /\ depth' = depth + 1 /\ stack' = <<"retry", "user">>
        /\ UNCHANGED <<started, stopping, fd, timer, idle, starts, fails, attempts>>

Next == \/ Start \/ Stop \/ Stop1 \/ Stop2 \/ EndCb \/ After
        \/ Loop(Idle) \/ Loop(TimerFires) \/ Loop(Complete) \/ Loop(Msg) \/ Loop(Lost)
Spec == Init /\ [][Next]_vars

\* P19: started and not connected: an attempt is in progress or a retry is armed
Trying == (stack = <<>> /\ started /\ ~stopping) => (conn \/ fd \/ timer)
OneAttempt == ~(conn /\ (fd \/ timer)) /\ ~(fd /\ timer)
\* P20: nothing remains once stopped, and nothing happens
Stopped == (stack = <<>> /\ ~started) => (~conn /\ ~fd /\ ~timer /\ ~stopping /\ idle = 0)
NoAttemptStopped == attempts = 0
\* P16: alternating notifications
Nested == \A i \in DOMAIN ev : ev[i] = (IF i % 2 = 1 THEN "C" ELSE "D")
Listed == stack = <<>> => (conn <=> Len(ev) % 2 = 1)
=============================================================================
