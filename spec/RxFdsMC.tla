------------------------------- MODULE RxFdsMC ------------------------------
(* The descriptors received on a local connection. The kernel keeps segments    *)
(* <<bytes, descriptors>>; a read takes bytes until its capacity but ends with  *)
(* the segment whose descriptors it took, which come with its first byte. The   *)
(* receiver keeps two tables, and gives the descriptors of the current one to   *)
(* the messages completed by the read that need some.                           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Lens,        \* lengths of messages
          MaxFds,      \* descriptors of a message
          MaxMsgs,
          MaxCap,      \* capacities of reads
          OneTable,    \* variant: a single table
          Resend       \* variant: the sender attaches the descriptors to every part

VARIABLES nsent,       \* messages begun by the sender
          rest,        \* what remains to send of the last one: <<bytes, descriptors>> or <<>>
          segs,        \* segments in the kernel: [n, fds]
          msgs,        \* messages sent: [len, fds]
          k, got,      \* message being received, bytes of it got
          cur, nxt,    \* tables
          dlv,         \* descriptors delivered with each message received
          closed       \* descriptors closed by the receiver
vars == <<nsent, rest, segs, msgs, k, got, cur, nxt, dlv, closed>>

Init == /\ nsent = 0 /\ rest = <<>> /\ segs = <<>> /\ msgs = <<>> /\ k = 1 /\ got = 0
        /\ cur = <<>> /\ nxt = <<>> /\ dlv = <<>> /\ closed = {}
Set(q) == {q[i] : i \in DOMAIN q}

Send == /\ rest = <<>> /\ nsent < MaxMsgs
        /\ \E n \in Lens, f \in 0 .. MaxFds :
             /\ LET fds == [i \in 1 .. f |-> <<nsent + 1, i>>] IN
                /\ msgs' = Append(msgs, [len |-> n, fds |-> fds])
                /\ rest' = [n |-> n, fds |-> fds]
             /\ nsent' = nsent + 1
        /\ UNCHANGED <<segs, k, got, cur, nxt, dlv, closed>>
\* the kernel accepts some bytes of the message, the descriptors with the first ones
Part == /\ rest # <<>>
        /\ \E n \in 1 .. rest.n :
             /\ segs' = Append(segs, [n |-> n, fds |-> rest.fds])
             /\ rest' = IF n = rest.n THEN <<>> ELSE [n |-> rest.n - n, fds |-> IF Resend THEN rest.fds ELSE <<>>]
        /\ UNCHANGED <<nsent, msgs, k, got, cur, nxt, dlv, closed>>

\* what a read of at most c bytes takes: bytes, descriptors, remaining segments
RECURSIVE Take(_, _, _)
Take(s, c, n) == IF s = <<>> \/ c = 0 THEN [n |-> n, fds |-> <<>>, s |-> s]
                 ELSE LET h == Head(s) IN
                      IF h.n > c THEN [n |-> n + c, fds |-> h.fds, s |-> <<[n |-> h.n - c, fds |-> <<>>]>> \o Tail(s)]
                      ELSE IF h.fds # <<>> THEN [n |-> n + h.n, fds |-> h.fds, s |-> Tail(s)]
                      ELSE Take(Tail(s), c - h.n, n + h.n)

\* the messages completed by n more bytes: state [k, got, cur, nxt, dlv, closed, partial]
RECURSIVE Feed(_, _)
Feed(n, r) ==
  IF n = 0 THEN r
  ELSE LET m == msgs[r.k]
           need == m.len - r.got IN
       IF n < need THEN [r EXCEPT !.got = r.got + n]
       ELSE LET nf == Len(m.fds)
                have == SubSeq(r.cur, 1, IF nf < Len(r.cur) THEN nf ELSE Len(r.cur))
                extra == SubSeq(r.cur, Len(have) + 1, Len(r.cur))
                r1 == [r EXCEPT !.k = r.k + 1, !.got = 0, !.dlv = Append(r.dlv, have), !.partial = n > need] IN
            Feed(n - need, IF nf = 0 THEN r1
                           ELSE [r1 EXCEPT !.closed = r.closed \cup Set(r.cur), !.cur = r.nxt, !.nxt = <<>>])

Read == /\ segs # <<>>
        /\ \E c \in 1 .. MaxCap :
             LET t == Take(segs, c, 0)
                 discard == t.fds # <<>> /\ cur # <<>> /\ nxt # <<>>
                 c0 == IF discard THEN nxt ELSE cur
                 n0 == IF discard THEN <<>> ELSE nxt
                 n1 == IF OneTable THEN n0 ELSE n0 \o t.fds
                 c1 == IF OneTable THEN c0 \o t.fds ELSE IF c0 = <<>> THEN n1 ELSE c0
                 n2 == IF OneTable THEN <<>> ELSE IF c0 = <<>> THEN <<>> ELSE n1
                 r == Feed(t.n, [k |-> k, got |-> got, cur |-> c1, nxt |-> n2, dlv |-> dlv,
                                 closed |-> closed \cup (IF discard THEN Set(cur) ELSE {}), partial |-> TRUE]) IN
             /\ segs' = t.s /\ k' = r.k /\ got' = r.got /\ dlv' = r.dlv
             /\ IF r.partial THEN cur' = r.cur /\ nxt' = r.nxt /\ closed' = r.closed
                ELSE cur' = <<>> /\ nxt' = <<>> /\ closed' = r.closed \cup Set(r.cur) \cup Set(r.nxt)
        /\ UNCHANGED <<nsent, rest, msgs>>

Next == Send \/ Part \/ Read
Spec == Init /\ [][Next]_vars

\* each message delivered has exactly its descriptors
Own == \A i \in DOMAIN dlv : dlv[i] = msgs[i].fds
\* nothing is kept once everything was delivered, and every descriptor received was closed after the callback
InKernel == UNION {Set(segs[i].fds) : i \in DOMAIN segs} \cup (IF rest = <<>> THEN {} ELSE Set(rest.fds))
Sent == UNION {Set(msgs[i].fds) : i \in DOMAIN msgs}
NoLeak == Sent = InKernel \cup closed \cup Set(cur) \cup Set(nxt)
Clean == (segs = <<>> /\ rest = <<>>) => (cur = <<>> /\ nxt = <<>> /\ Len(dlv) = Len(msgs))
=============================================================================
