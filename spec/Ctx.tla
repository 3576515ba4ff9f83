-------------------------------- MODULE Ctx ---------------------------------
(* Contexts and connections: the sockets of the library and of the harness,   *)
(* what has been accepted for sending, written, read and delivered on each,   *)
(* and the life of contexts and connections.                                  *)
(*                                                                            *)
(* A stream is described at its sending socket:                               *)
(*   q    items accepted whose bytes are not all written (first: off bytes)   *)
(*   comp items written whose completion has not been notified                *)
(*   fr   frames (messages) not delivered yet, with the stream offset of      *)
(*        their end; str: the bytes not consumed yet by a raw receiver        *)
(*   acc, w, r: bytes accepted, written, and read by the peer                 *)
(* Contents are sequences of <<byte, count>>.                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

ENOENT == -2
EPERM == -1
EBUSY == -16
EINVAL == -22
EAGAIN == -11
EADDRNOTAVAIL == -99
EADDRINUSE == -98
ENOTCONN == -107
EINPROGRESS == -115
ETIMEDOUT == -110

MaxConns == 32
Delay == 2000
StOk == 1
StError == 2
StAborted == 4
StQueueEmpty == 8

W == INSTANCE Wire
RealSize(h) == W!LE32ToNat(SubSeq(h, 9, 12))
SD == INSTANCE StreamDecoder WITH Mg <- W!Magic, Hdr <- W!HeaderSize, SizeOf <- RealSize, Big <- 16777216

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Range(q) == {q[i] : i \in DOMAIN q}
Without(q, x) == LET t(y) == y # x IN SelectSeq(q, t)
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Max2(a, b) == IF a > b THEN a ELSE b

\* ---- contents --------------------------------------------------------------
\* b is a prefix of a: what remains of a (and whether it is)
RECURSIVE Pop(_, _)
Pop(a, b) ==
  IF b = <<>> THEN [ok |-> TRUE, rest |-> a]
  ELSE IF a = <<>> \/ a[1][1] # b[1][1] THEN [ok |-> FALSE, rest |-> a]
  ELSE LET m == IF a[1][2] < b[1][2] THEN a[1][2] ELSE b[1][2]
           ta == IF a[1][2] = m THEN Tail(a) ELSE [a EXCEPT ![1][2] = @ - m]
           tb == IF b[1][2] = m THEN Tail(b) ELSE [b EXCEPT ![1][2] = @ - m] IN
       Pop(ta, tb)
RECURSIVE RleLen(_)
RleLen(a) == IF a = <<>> THEN 0 ELSE a[1][2] + RleLen(Tail(a))
RECURSIVE Rle(_, _, _)
Rle(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE IF acc # <<>> /\ acc[Len(acc)][1] = b[i] THEN Rle(b, i + 1, [acc EXCEPT ![Len(acc)][2] = @ + 1])
  ELSE Rle(b, i + 1, Append(acc, <<b[i], 1>>))
RECURSIVE RleCut(_, _)
RleCut(a, n) == IF n <= 0 \/ a = <<>> THEN <<>>
                ELSE IF a[1][2] <= n THEN <<a[1]>> \o RleCut(Tail(a), n - a[1][2])
                ELSE <<<<a[1][1], n>>>>

\* number of descriptor arguments of a frame made of bytes, -1 if malformed
RECURSIVE Walk(_, _, _)
Walk(d, p, n) ==
  IF p >= Len(d) THEN n
  ELSE LET t == d[p + 1] IN
       IF t = W!FD THEN IF p + 5 <= Len(d) THEN Walk(d, p + 5, n + 1) ELSE -1
       ELSE IF t < 1 \/ t > 12 THEN -1
       ELSE LET r == W!DecArg(d, p, t, <<>>) IN
            IF r.res # "ok" THEN -1 ELSE Walk(d, r.next, n)
\* where the slots of descriptors are (a message that is malformed is read as far
\* as it goes); the arguments are bound in sets so that TLC computes them once
RECURSIVE Slots(_, _)
Slots(d, p) ==
  IF p >= Len(d) THEN {}
  ELSE LET t == d[p + 1] IN
       IF t = W!FD THEN IF p + 5 <= Len(d) THEN {p + 1} \cup UNION {Slots(d, q) : q \in {p + 5}} ELSE {}
       ELSE IF t < 1 \/ t > 12 THEN {}
       ELSE IF W!Fixed(t) > 0 THEN UNION {Slots(d, q) : q \in {p + 1 + W!Fixed(t)}}
       ELSE UNION {IF ~v.ok THEN {}
                   ELSE IF t \in {W!STR, W!BUF}
                   THEN UNION {IF n < 0 \/ v.next + n > Len(d) THEN {} ELSE UNION {Slots(d, q) : q \in {v.next + n}} : n \in {W!BitsToNat(v.bits)}}
                   ELSE Slots(d, v.next) : v \in {W!DecVarint(d, p + 1)}}
Clear(d, S) == IF S = {} THEN d ELSE [i \in 1 .. Len(d) |-> IF \E o \in S : i \in o + 1 .. o + 4 THEN 0 ELSE d[i]]
Frame(b, end) ==
  CHOOSE f \in
    {[x |-> Rle(y[1], 1, <<>>), len |-> Len(b), end |-> end, fds |-> <<>>, any |-> FALSE, lost |-> FALSE,
      n |-> IF y[2] < 0 THEN 0 ELSE y[2], bad |-> y[2] < 0 \/ y[2] > W!MaxFds]
     : y \in {<<c, n>> : c \in {Clear(b, S) : S \in {Slots(b, W!HeaderSize)}}, n \in {Walk(b, W!HeaderSize, 0)}}} : TRUE

\* the frames in bytes in[i..] fed to a decoder: [st, fr] (base: offset of in[1])
RECURSIVE FramesFrom(_, _, _, _, _, _)
FramesFrom(st, in, i, base, huge, acc) ==
  IF i > Len(in) THEN [st |-> st, fr |-> acc]
  ELSE LET r == TLCEval(SD!Feed(st, in, i, 0, huge)) IN
       FramesFrom(r.st, in, r.used + 1, base, huge, IF r.out = <<>> THEN acc ELSE TLCEval(Append(acc, Frame(r.out[1], base + r.used))))
Frames(st, in, base, huge) == FramesFrom(st, in, 1, base, huge, <<>>)

\* ---- state -----------------------------------------------------------------
InitState == [X |-> <<>>, K |-> <<>>, st |-> <<>>, now |-> 0, kept |-> <<>>, rx |-> FALSE, lr |-> 0, lw |-> 0,
              px |-> 0, pm |-> 0, id |-> 1]

NewCtx == [l |-> 0, raw |-> FALSE, kcb |-> FALSE, scb |-> FALSE, on |-> FALSE, failed |-> FALSE,
           stopping |-> FALSE, t |-> "s", a |-> -1, mode |-> 0, due |-> -1, conns |-> <<>>, ka |-> <<1, 5, 1, 2>>]

\* h: of the harness; k: what it is now
NewSock(c, h, k) ==
  [c |-> c, h |-> h, k |-> k, open |-> TRUE, a |-> -1, peer |-> -1, un |-> FALSE, kn |-> FALSE,
   q |-> <<>>, comp |-> <<>>, fr |-> <<>>, str |-> <<>>, acc |-> 0, w |-> 0, r |-> 0, rawp |-> 0,
   shut |-> FALSE, sus |-> FALSE, cause |-> FALSE, brk |-> FALSE, gp |-> FALSE, ab |-> FALSE, cr |-> 1, ls |-> 0,
   ds |-> SD!Idle, dr |-> 0, fdx |-> FALSE, hp |-> <<>>, inq |-> <<>>, cur |-> <<>>, curp |-> -1, ka |-> <<>>]

Top(s) == s.st[Len(s.st)]
Below(s) == s.st[Len(s.st) - 1]
Push(s, fr) == [s EXCEPT !.st = Append(@, fr)]
PopF(s) == [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
TopIs(s, k) == s.st # <<>> /\ Top(s).k = k
\* something happened that only a failure can explain
NeedFault(s) == [s EXCEPT !.st[1].nf = TRUE]
If(b, s, t) == IF b THEN s ELSE t

Local(s, k) == s.K[k].un
OpenOf(s, c) == {k \in DOMAIN s.K : s.K[k].c = c /\ ~s.K[k].h /\ s.K[k].open}
IsOpen(s, k) == k \in DOMAIN s.K /\ s.K[k].open
InCb(s, c) == \E i \in DOMAIN s.st : s.st[i].k = "cb" /\ s.st[i].c = c
Stopping(s, c) == s.X[c].stopping \/ \E i \in DOMAIN s.st : s.st[i].k = "stop" /\ s.st[i].c = c /\ s.st[i].sync
\* a deferred stop that may be over
MaybeStopped(s, c) == s.X[c].stopping /\ OpenOf(s, c) = {}

\* the peer is known, and has not been closed or shut down
PeerUp(s, k) == LET p == s.K[k].peer IN p \in DOMAIN s.K /\ s.K[p].open /\ ~s.K[p].shut
\* the listening socket of an address
Listening(s, a) == {k \in DOMAIN s.K : s.K[k].open /\ s.K[k].a = a /\ s.K[k].k \in {"lsn", "hl"}}

\* ---- writing ---------------------------------------------------------------
Compl(it, st, q) == [x |-> it.x, len |-> it.len, fds |-> it.fds, st |-> IF q = <<>> THEN st + StQueueEmpty ELSE st]
\* n bytes of the queue of k are written
Written(s, k, n) ==
  LET K == s.K[k]
      it == K.q[1]
      off == it.off + n
      done == off = it.len
      q2 == IF done THEN Tail(K.q) ELSE <<[it EXCEPT !.off = off]>> \o Tail(K.q)
      comp2 == IF done /\ s.X[K.c].scb THEN Append(K.comp, Compl(it, StOk, q2)) ELSE K.comp IN
  [s EXCEPT !.K[k].q = q2, !.K[k].comp = comp2, !.K[k].w = @ + n]

\* the datagram sockets that have an address
AtAddr(s, a) == {k \in DOMAIN s.K : s.K[k].open /\ s.K[k].a = a /\ s.K[k].k \in {"dg", "hd"}}
\* the datagram at the head of the queue leaves, for socket d (0: nobody)
DgramOut(s, k, d) ==
  LET it == s.K[k].q[1]
      t == Written(s, k, it.len) IN
  IF d # 0
  THEN [t EXCEPT !.K[d].inq = Append(@, [x |-> it.x, len |-> it.len, from |-> s.K[k].a, fr |-> IF it.raw THEN <<>> ELSE
                   <<[x |-> it.x, len |-> it.len, end |-> it.len, fds |-> it.fds, any |-> FALSE, lost |-> FALSE, n |-> Len(it.fds), bad |-> FALSE]>>,
                   bytes |-> <<>>])]
  ELSE t

\* the system refuses the datagram at the head of the queue
DgramError(s, k) ==
  LET K == s.K[k]
      q2 == Tail(K.q) IN
  [s EXCEPT !.K[k].q = q2, !.K[k].comp = IF s.X[K.c].scb THEN Append(@, Compl(K.q[1], StError, q2)) ELSE @]

\* an accepted send of item it on stream k
Accept(s, k, it) ==
  LET K == s.K[k]
      e == K.acc + it.len IN
  [s EXCEPT !.K[k].q = Append(@, it), !.K[k].acc = e,
            !.K[k].fr = IF it.raw THEN @ ELSE Append(@, [x |-> it.x, len |-> it.len, end |-> e, fds |-> it.fds, any |-> FALSE, lost |-> FALSE,
                                                         n |-> Len(it.fds), bad |-> FALSE]),
            !.K[k].str = @ \o it.x]
\* it was refused: it must be the last, and nothing of it be written
Refused(s, k, old) == [s EXCEPT !.K[k].q = old.q, !.K[k].acc = old.acc, !.K[k].fr = old.fr, !.K[k].str = old.str]

\* ---- reading ---------------------------------------------------------------
\* frames entirely read must have been delivered (or be malformed)
RECURSIVE Behind(_, _, _)
Behind(fr, r, i) == IF i > Len(fr) \/ fr[i].end > r THEN FALSE
                    ELSE IF ~fr[i].bad THEN TRUE ELSE Behind(fr, r, i + 1)
AllDelivered(s, k) ==
  LET K == s.K[k] IN
  /\ K.rawp = 0
  /\ ~Behind(K.cur, 1000000000, 1)
  /\ K.k = "conn" /\ ~s.X[K.c].raw /\ K.peer \in DOMAIN s.K => ~Behind(s.K[K.peer].fr, K.r, 1)

\* indexes of the frames that the message x can be (only those that may be
\* dropped can be skipped)
RECURSIVE Deliv(_, _, _, _, _)
Deliv(fr, r, i, x, len) ==
  IF i > Len(fr) \/ fr[i].end > r THEN {}
  ELSE (IF fr[i].x = x /\ fr[i].len = len THEN {i} ELSE {})
       \cup (IF fr[i].bad THEN Deliv(fr, r, i + 1, x, len) ELSE {})
FdsOk(s, f, fds, local) ==
  IF ~local THEN \A i \in DOMAIN fds : i > W!MaxFds \/ fds[i] = -1
  \* (a descriptor that is one too many stays what was received)
  ELSE IF f.any THEN \A i \in DOMAIN fds : i > W!MaxFds \/ fds[i] \in -1 .. 7
  ELSE IF f.lost THEN Len(fds) = Len(f.fds) /\ \A i \in DOMAIN fds : fds[i] \in {f.fds[i], -1}
  ELSE fds = f.fds

\* ---- life of contexts ------------------------------------------------------
Stopped(s, c) ==
  [s EXCEPT !.X[c].on = FALSE, !.X[c].stopping = FALSE, !.X[c].failed = FALSE, !.X[c].due = -1, !.X[c].conns = <<>>,
            !.px = IF s.X[c].on /\ s.X[c].t = "s" /\ s.X[c].a = 3 THEN 0 ELSE @]
Retry(s, c) == [s EXCEPT !.X[c].due = s.now + Delay]
=============================================================================
