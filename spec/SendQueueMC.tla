----------------------------- MODULE SendQueueMC ----------------------------
(* The sends of a stream connection, step by step: a send writes at once when   *)
(* nothing is queued, what the kernel does not take is queued, completions are  *)
(* deferred to the loop, and the end of the connection aborts what remains.     *)
(* Messages have 1 or 2 bytes; the bytes the peer gets are recorded.            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxSends, MaxRoom,
          Bypass,        \* variant: a send is tried although others are queued
          AbortFirst,    \* variant: the end of the connection reports aborted sends before finished ones
          FromStart,     \* variant: the queued part starts again from the first byte
          QeAlways,      \* variant: every completion says that the queue is empty
          KeepCbs        \* variant: a disconnection forgets the completions not yet notified

VARIABLES n,       \* sends accepted: lengths
          queue,   \* pending: [id, off]
          room,    \* what the kernel takes at the moment
          wire,    \* bytes sent: <<id, index>>
          cbs,     \* completions recorded, to be notified by the loop: [id, st, qe, e]
          done,    \* completions notified
          up       \* "up", "shut" (disconnect called), "down"
vars == <<n, queue, room, wire, cbs, done, up>>

Init == n = <<>> /\ queue = <<>> /\ room = 1 /\ wire = <<>> /\ cbs = <<>> /\ done = <<>> /\ up = "up"

Bytes(id, a, b) == [i \in 1 .. b - a |-> <<id, a + i>>]
C(id, st, qe, e) == [id |-> id, st |-> st, qe |-> qe, e |-> e]
Min(a, b) == IF a < b THEN a ELSE b

Send(len) ==
  /\ up = "up" /\ Len(n) < MaxSends
  /\ LET id == Len(n) + 1
         now == IF queue = <<>> \/ Bypass THEN Min(room, len) ELSE 0 IN
     /\ n' = Append(n, len)
     /\ room' = room - now
     /\ wire' = wire \o Bytes(id, 0, now)
     /\ IF now = len /\ (queue = <<>> \/ Bypass)
        THEN cbs' = Append(cbs, C(id, "ok", TRUE, queue = <<>>)) /\ UNCHANGED queue
        ELSE queue' = Append(queue, [id |-> id, off |-> IF FromStart THEN 0 ELSE now]) /\ UNCHANGED cbs
     /\ UNCHANGED <<done, up>>

\* the socket is writable
Write == /\ up = "up" /\ queue # <<>> /\ room > 0
         /\ LET q == Head(queue)
                w == Min(room, n[q.id] - q.off) IN
            /\ wire' = wire \o Bytes(q.id, q.off, q.off + w) /\ room' = room - w
            /\ IF q.off + w = n[q.id]
               THEN /\ queue' = Tail(queue)
                    /\ cbs' = Append(cbs, C(q.id, "ok", QeAlways \/ Tail(queue) = <<>>, Tail(queue) = <<>>))
               ELSE queue' = <<[q EXCEPT !.off = q.off + w]>> \o Tail(queue) /\ UNCHANGED cbs
         /\ UNCHANGED <<n, done, up>>
Room == /\ room < MaxRoom /\ room' = room + 1 /\ UNCHANGED <<n, queue, wire, cbs, done, up>>
Notify == /\ cbs # <<>> /\ up # "down" /\ done' = Append(done, Head(cbs)) /\ cbs' = Tail(cbs)
          /\ UNCHANGED <<n, queue, room, wire, up>>
\* pomp_conn_disconnect: what was finished is notified at once, nothing more is written
Disconnect == /\ up = "up" /\ up' = "shut" /\ cbs' = <<>> /\ done' = IF KeepCbs THEN done ELSE done \o cbs
              /\ UNCHANGED <<n, queue, room, wire>>
Aborted == [i \in DOMAIN queue |-> C(queue[i].id, "aborted", i = Len(queue), i = Len(queue))]
Close == /\ up # "down" /\ up' = "down" /\ cbs' = <<>> /\ queue' = <<>>
         /\ done' = IF AbortFirst THEN done \o Aborted \o cbs ELSE done \o cbs \o Aborted
         /\ UNCHANGED <<n, room, wire>>

Next == (\E len \in 1 .. 2 : Send(len)) \/ Write \/ Room \/ Notify \/ Disconnect \/ Close
Spec == Init /\ [][Next]_vars

RECURSIVE Stream(_)
Stream(i) == IF i > Len(n) THEN <<>> ELSE Bytes(i, 0, n[i]) \o Stream(i + 1)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* P17: the wire is a prefix of what was sent, all of it when the queue is empty and the connection up
Prefix == IsPrefix(wire, Stream(1))
Whole == (up = "up" /\ queue = <<>>) => wire = Stream(1)
\* P18
Order == \A i \in DOMAIN done : done[i].id = i
Status == \A i \in DOMAIN done : (done[i].st = "ok") = (\E j \in DOMAIN wire : wire[j] = <<i, n[i]>>)
AllDone == up = "down" => Len(done) = Len(n)
Qe == \A i \in DOMAIN done : done[i].qe = done[i].e
=============================================================================
