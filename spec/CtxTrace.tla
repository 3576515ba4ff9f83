------------------------------ MODULE CtxTrace -------------------------------
(* Validation of traces of the context driver against Ctx.                    *)
EXTENDS Ctx, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)

VARIABLES tid, l, s
vars == <<tid, l, s>>

Ev == Traces[tid].ev[l]
Has(e, f) == f \in DOMAIN e
Init == tid \in 1 .. NT /\ l = 1 /\ s = InitState

B(x) == x # 0
Flt(e) == Has(e, "flt") /\ e.flt > 0
\* failures injected are accounted to the call at the bottom of the stack.
\* Afterwards what needs the resources that failed is not required any more
\* (see Relaxed).
Note(t, e) == IF ~Flt(e) THEN t
              ELSE [t EXCEPT !.rx = TRUE, !.st = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![1].flt = TRUE]]
\* A failure is injected. What was being received when memory is exhausted may
\* be dropped (the descriptors of what follows may be lost as well), as may the
\* notification that something was written.
DropFrames(fr, r) == [i \in DOMAIN fr |-> IF fr[i].end - fr[i].len < r THEN [fr[i] EXCEPT !.bad = TRUE, !.lost = TRUE] ELSE [fr[i] EXCEPT !.lost = TRUE]]
Hit(e) ==
  /\ e.op = "hit"
  /\ LET t == [s EXCEPT !.rx = TRUE, !.st = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![1].flt = TRUE]]
         mem == e.n > 1 \/ e.k \in {"malloc", "calloc", "realloc"}
         u == IF ~mem \/ s.lr = 0 THEN t
              ELSE IF s.K[s.lr].k = "dg" THEN [t EXCEPT !.K[s.lr].cur = TLCEval(DropFrames(@, 1000000000))]
              ELSE IF s.K[s.lr].peer \in DOMAIN s.K THEN [t EXCEPT !.K[s.K[s.lr].peer].fr = TLCEval(DropFrames(@, s.K[s.lr].r)), !.K[s.K[s.lr].peer].dr = s.K[s.lr].r]
              ELSE t IN
     s' \in {u} \cup (IF mem /\ s.lw # 0 /\ IsOpen(s, s.lw) /\ s.K[s.lw].comp # <<>>
                      THEN {[u EXCEPT !.K[s.lw].comp = SubSeq(@, 1, Len(@) - 1)]} ELSE {})
Base == [nf |-> FALSE, flt |-> FALSE]
\* calls are made outside everything, or in a callback
Calling == IF s.st = <<>> THEN TRUE ELSE Top(s).k = "cb"
\* a simple call: expected result r0
Simple(e, r0, t) == IF Flt(e) /\ e.r < 0 THEN s' = Note(s, e) ELSE e.r = r0 /\ s' = Note(IF r0 = 0 THEN t ELSE s, e)

New(e) == /\ e.op = "new"
          /\ IF e.r # 0 THEN Flt(e) /\ s' = Note(s, e)
             ELSE s' = Note([s EXCEPT !.X = Put(@, e.c, [NewCtx EXCEPT !.l = e.l, !.raw = B(e.raw), !.kcb = B(e.kcb), !.scb = B(e.scb)])], e)
Destroy(e) ==
  /\ e.op = "destroy"
  /\ LET X == s.X[e.c] IN
     \/ X.on /\ ~X.failed /\ ~MaybeStopped(s, e.c) /\ e.r = EBUSY /\ s' = Note(s, e)
     \/ X.on /\ (X.failed \/ MaybeStopped(s, e.c)) /\ e.r \in {0, EBUSY}
        /\ s' = Note(IF e.r = 0 THEN [Stopped(s, e.c) EXCEPT !.X = Del(@, e.c)] ELSE s, e)
     \/ ~X.on /\ e.r = 0 /\ s' = Note([s EXCEPT !.X = Del(@, e.c)], e)

\* ---- start and stop --------------------------------------------------------
Start(e) ==
  /\ e.op = "start"
  /\ LET X == s.X[e.c] IN
     \E busy \in BOOLEAN :
       /\ ~X.on => ~busy
       /\ X.on /\ ~X.failed /\ ~MaybeStopped(s, e.c) => busy
       /\ s' = Push(IF busy THEN s ELSE
                    [(IF X.on THEN Stopped(s, e.c) ELSE s) EXCEPT !.X[e.c].on = TRUE, !.X[e.c].t = e.t, !.X[e.c].a = e.a, !.X[e.c].mode = e.mode,
                        !.X[e.c].due = -1, !.X[e.c].failed = FALSE, !.X[e.c].stopping = FALSE, !.X[e.c].conns = <<>>,
                        !.px = IF e.a = 3 /\ e.t # "c" THEN 2 ELSE @],
                  Base @@ [k |-> "start", c |-> e.c, busy |-> busy, err |-> FALSE, was |-> X.t])
Stop(e) ==
  /\ e.op = "stop"
  /\ LET X == s.X[e.c]
         act == X.on /\ ~X.stopping
         sync == act /\ ~InCb(s, e.c) IN
     s' = Push(IF act /\ ~sync THEN [s EXCEPT !.X[e.c].stopping = TRUE] ELSE s,
               Base @@ [k |-> "stop", c |-> e.c, sync |-> sync, def |-> act /\ ~sync])
\* everything is settled at the end of a call that may process things
Settled(t) == \A k \in DOMAIN t.K : t.K[k].open /\ ~t.K[k].h =>
                /\ t.K[k].k \notin {"new", "fail", "bound", "acc", "closing"}
                /\ ~(t.K[k].k = "conn" /\ t.K[k].cause)
                /\ AllDelivered(t, k)
\* (the path of a unix server)
PathOf(t, c) == IF t.X[c].t = "s" /\ t.X[c].a = 3 /\ \E k \in OpenOf(t, c) : t.K[k].k = "lsn"
                THEN [t EXCEPT !.px = 1, !.pm = t.X[c].mode] ELSE t
RetStart(e, fr) ==
  IF fr.busy THEN e.r = EBUSY /\ s' = Note(PopF(s), e)
  ELSE LET o == OpenOf(s, fr.c) IN
       IF e.r = 0
       THEN /\ \/ \E k \in o : s.K[k].k \in {"lsn", "att", "dg"}
               \/ s.X[fr.c].due >= 0
               \/ s.X[fr.c].stopping
            /\ \A k \in o : s.K[k].k \notin {"new", "fail", "bound"}
            /\ s' = PathOf(Note(PopF(s), e), fr.c)
       ELSE /\ o = {} /\ (fr.err \/ Flt(e))
            \* (what it is may not have changed)
            /\ \E t \in {s.X[fr.c].t} \cup (IF Flt(e) THEN {fr.was} ELSE {}) :
                 s' = Note([PopF(s) EXCEPT !.X[fr.c].failed = TRUE, !.X[fr.c].due = -1, !.X[fr.c].t = t], e)
RetStop(e, fr) ==
  IF fr.sync THEN /\ e.r = 0 /\ OpenOf(s, fr.c) = {}
                  /\ s' = Note(Stopped(PopF(s), fr.c), e)
  ELSE IF fr.def /\ Flt(e) /\ e.r < 0 THEN s' = Note([PopF(s) EXCEPT !.X[fr.c].stopping = FALSE], e)
  ELSE e.r = 0 /\ s' = Note(PopF(s), e)
RetDisc(e, fr) ==
  /\ e.r = IF s.K[fr.s].k = "dg" THEN ENOTCONN ELSE 0
  /\ s.K[fr.s].k # "dg" => s.K[fr.s].shut
  /\ s.K[fr.s].k = "conn" => s.K[fr.s].comp = <<>>
  /\ s' = Note(PopF(s), e)

\* ---- sending ---------------------------------------------------------------
\* reasons to refuse to send on k (in the frame of callbacks below)
Replying(e) == \E i \in DOMAIN s.st : s.st[i].k = "cb" /\ s.st[i].kind \in {"msg", "raw"}
Refusals(e, k) ==
  LET K == s.K[k] IN
  (IF K.shut THEN {ENOTCONN} ELSE {})
  \cup (IF Len(e.fds) > 0 /\ ~Local(s, k) THEN {EPERM} ELSE {})
  \cup (IF K.k = "dg" /\ e.reply = 1 /\ ~Replying(e) THEN {EINVAL} ELSE {})
MayRefuse(e, k) ==
  LET K == s.K[k] IN
  (IF K.k = "closing" \/ K.ab \/ (K.k = "dg" /\ Stopping(s, e.c)) THEN {ENOTCONN, EINVAL} ELSE {})
  \cup (IF K.k = "dg" /\ e.d < 0 THEN {EINVAL} ELSE {})
\* reasons for the call to be refused as a whole
CtxRefusal(e) ==
  LET X == s.X[e.c]
      dg == {k \in OpenOf(s, e.c) : s.K[k].k = "dg"} IN
  IF B(e.to) THEN IF X.t # "d" \/ dg = {} \/ (B(e.raw) /\ ~X.raw) THEN {EINVAL} ELSE {}
  ELSE IF ~B(e.b) THEN {}
  ELSE IF B(e.raw) /\ ~X.raw THEN {EINVAL}
  ELSE IF X.t = "d" \/ (X.t = "c" /\ X.conns = <<>>) THEN {ENOTCONN} ELSE {}
Targets(e) ==
  IF CtxRefusal(e) # {} THEN {}
  ELSE IF B(e.to) THEN {k \in OpenOf(s, e.c) : s.K[k].k = "dg"}
  ELSE Range(e.t)
Send(e) ==
  /\ e.op = "send"
  /\ B(e.b) /\ ~B(e.to) => e.t = s.X[e.c].conns
  /\ ~B(e.b) /\ ~B(e.to) => \A k \in Range(e.t) : IsOpen(s, k) /\ s.K[k].c = e.c
  /\ LET it == [x |-> e.x, len |-> e.len, fds |-> e.fds, off |-> 0, raw |-> B(e.raw), id |-> s.id,
                d |-> e.d]
         T == {k \in Targets(e) : Refusals(e, k) = {}}
         t == TLCEval([s EXCEPT !.K = TLCEval([k \in DOMAIN s.K |-> IF k \in T THEN Accept(s, k, it).K[k] ELSE s.K[k]]), !.id = @ + 1]) IN
     s' = Push([t EXCEPT !.lw = 0], Base @@ [k |-> "send", c |-> e.c, T |-> T, all |-> Targets(e), old |-> [k \in T |-> s.K[k]],
                           ref |-> CtxRefusal(e) \cup (IF B(e.b) /\ s.X[e.c].t = "s" THEN {} ELSE UNION {Refusals(e, k) : k \in Targets(e)}),
                           may |-> UNION {MayRefuse(e, k) : k \in Targets(e)}
                                  \* (the message could not be made)
                                  \cup (IF e.len = 0 /\ s.st # <<>> /\ s.st[1].flt THEN {EINVAL} ELSE {}),
                           bc |-> CtxRefusal(e) = {} /\ B(e.b) /\ ~B(e.to) /\ s.X[e.c].t = "s", we |-> [k \in T |-> 0], id |-> s.id])
\* what was written of the item of this call on k: nothing, part or all
Unwritten(fr, k) == LET q == s.K[k].q IN q # <<>> /\ q[Len(q)].id = fr.id /\ q[Len(q)].off = 0
Partly(fr, k) == LET q == s.K[k].q IN q # <<>> /\ q[Len(q)].id = fr.id /\ q[Len(q)].off > 0
Cut(K) == [K EXCEPT !.q = SubSeq(@, 1, Len(@) - 1), !.brk = TRUE, !.cause = FALSE]
RetSend(e, fr) ==
  LET t == Note(PopF(s), e) IN
  IF fr.bc
  THEN \* errors of each are ignored; those to which the system refused to write have no part of it
       /\ e.r = 0 \/ Flt(e)
       /\ LET bad == {k \in fr.T : fr.we[k] < 0}
              cand == {k \in fr.T \ bad : Unwritten(fr, k) /\ (Flt(e) \/ s.K[k].k = "closing")}
              cut == {k \in fr.T : Partly(fr, k) /\ s.K[k].shut} IN
          /\ \A k \in bad : Unwritten(fr, k)
          /\ \E R \in {bad, bad \cup cand} \cup {bad \cup {k} : k \in cand} :
               s' = [t EXCEPT !.K = TLCEval([k \in DOMAIN t.K |-> IF k \in R THEN Refused(t, k, fr.old[k]).K[k]
                                                                   ELSE IF k \in cut THEN Cut(t.K[k]) ELSE t.K[k]])]
  ELSE IF e.r = 0
  THEN /\ fr.ref = {} /\ \A k \in fr.T : fr.we[k] >= 0
       /\ s' = t
  ELSE /\ e.r < 0
       /\ \/ e.r \in fr.ref
          \/ e.r \in fr.may
          \/ \E k \in fr.T : fr.we[k] = e.r
          \/ Flt(e)
       /\ \A k \in fr.T : Unwritten(fr, k) \/ (Flt(e) /\ Partly(fr, k))
       \* one that was written in part cannot be taken back: the connection is over
       /\ s' = [t EXCEPT !.K = TLCEval([k \in DOMAIN t.K |->
                   IF k \notin fr.T THEN t.K[k]
                   ELSE IF Partly(fr, k) THEN Cut(t.K[k])
                   ELSE Refused(t, k, fr.old[k]).K[k]])]
Ret(e) ==
  /\ e.op = "ret" /\ s.st # <<>>
  /\ LET fr == Top(s) IN
     /\ fr.nf => (fr.flt \/ Flt(e))
     /\ CASE fr.k = "start" -> RetStart(e, fr)
          [] fr.k = "stop" -> RetStop(e, fr)
          [] fr.k = "disc" -> RetDisc(e, fr)
          [] fr.k = "send" -> RetSend(e, fr)
          [] OTHER -> FALSE

\* ---- other calls -----------------------------------------------------------
Disc(e) == e.op = "disc" /\ IsOpen(s, e.s) /\ s.K[e.s].c = e.c /\ s' = Push(s, Base @@ [k |-> "disc", c |-> e.c, s |-> e.s])
Sus(e) == /\ e.op \in {"sus", "res"} /\ IsOpen(s, e.s)
          /\ \/ e.r = 0 /\ s' = Note([s EXCEPT !.K[e.s].sus = (e.op = "sus")], e)
             \/ e.r < 0 /\ (Flt(e) \/ (s.K[e.s].k = "closing" /\ e.r = ENOENT) \/ s.K[e.s].ab
                                \/ (s.K[e.s].k = "dg" /\ Stopping(s, e.c) /\ e.r = ENOENT)) /\ s' = Note(s, e)
Rbl(e) == /\ e.op \in {"rbl", "crbl"}
          /\ IF e.n = 0 THEN e.r = EINVAL /\ s' = s ELSE Simple(e, 0, s)
Set(e) == /\ e.op = "set"
          /\ LET X == s.X[e.c] IN
             \/ /\ e.r = EBUSY /\ X.on /\ s' = s
             \/ /\ e.r = 0 /\ (~X.on \/ X.failed \/ MaybeStopped(s, e.c))
                /\ s' = CASE e.k = "r" -> [s EXCEPT !.X[e.c].raw = TRUE]
                          [] e.k = "k" -> [s EXCEPT !.X[e.c].kcb = TRUE]
                          [] OTHER -> [s EXCEPT !.X[e.c].scb = TRUE]
\* settings of keepalive of the connections to come (the rest has no meaning when disabled)
Ka(e) == e.op = "ka" /\ e.r = 0 /\ s' = [s EXCEPT !.X[e.c].ka = IF e.v[1] = 0 THEN <<0>> ELSE <<1>> \o Tail(e.v)]
\* the address a server or datagram context says it has is the one of its socket
LAddr(e) ==
  /\ e.op = "laddr" /\ s' = s
  /\ LET X == s.X[e.c]
         o == {k \in OpenOf(s, e.c) : s.K[k].k \in {"lsn", "dg"}} IN
     IF X.t = "c" THEN e.n = -1
     ELSE \/ o = {} /\ (e.n = 0 \/ s.rx \/ X.failed)
          \/ \E k \in o : k \in Range(e.t)
          \/ e.n = 0 /\ s.rx
List(e) == e.op = "list" /\ e.t = s.X[e.c].conns /\ s' = s
Adv(e) == e.op = "adv" /\ s.st = <<>> /\ s' = [s EXCEPT !.now = @ + e.ms]
Keep(e) == e.op = "keep" /\ s.st # <<>> /\ Top(s).k = "cb"
           \* (a message without its descriptors cannot be copied)
           /\ \/ /\ \/ e.x = Top(s).x /\ e.len = Top(s).len /\ e.fds = Top(s).fds
                    \/ e.len = 0 /\ (s.st[1].flt \/ \E i \in DOMAIN Top(s).fds : Top(s).fds[i] < 0)
                 /\ s' = [s EXCEPT !.kept = Put(@, e.i, [x |-> e.x, len |-> e.len, fds |-> e.fds])]
Chk(e) == e.op = "chk" /\ LET k == s.kept[e.i] IN e.x = k.x /\ e.len = k.len /\ e.fds = k.fds /\ s' = s
Path(e) == /\ e.op = "path"
           /\ (s.px = 0 => e.ex = 0)
           /\ (s.px = 1 /\ ~(\E c \in DOMAIN s.X : s.X[c].a = 3 /\ s.X[c].t = "s" /\ MaybeStopped(s, c)) => e.ex = 1 /\ (s.pm # 0 => e.mode = s.pm))
           /\ s' = s

\* ---- system calls of the library -------------------------------------------
MayAttempt(c) ==
  LET X == s.X[c] IN X.on /\ ~X.failed /\ X.l = Top(s).l /\ X.due >= 0 /\ X.due <= s.now /\ OpenOf(s, c) = {}
Socket(e) ==
  /\ e.op = "socket" /\ s.st # <<>>
  /\ \/ /\ Top(s).k = "start" /\ ~Top(s).busy /\ Top(s).c = e.c /\ OpenOf(s, e.c) = {} /\ ~Top(s).err
        /\ IF e.s > 0 THEN s' = [s EXCEPT !.K = Put(@, e.s, NewSock(e.c, FALSE, "new"))]
           ELSE s' = [s EXCEPT !.st[Len(s.st)].err = TRUE]
     \/ /\ Top(s).k = "step"
        /\ \E c \in DOMAIN s.X :
             /\ MayAttempt(c)
             /\ s' = IF e.s > 0 THEN [s EXCEPT !.K = Put(@, e.s, NewSock(c, FALSE, "new")), !.X[c].due = -1]
                     ELSE Retry(s, c)
\* the application was told about the socket
Told(k) == s.X[s.K[k].c].kcb => s.K[k].kn
InCall == s.st # <<>> /\ Top(s).k \in {"start", "step"}
Bind(e) ==
  /\ e.op = "bind" /\ InCall /\ IsOpen(s, e.s) /\ s.K[e.s].k = "new" /\ Told(e.s)
  /\ LET c == s.K[e.s].c
         X == s.X[c] IN
     /\ X.t \in {"s", "d"} /\ e.a = X.a
     \* (an address is in use only when another socket is there: those of ended connections do not count)
     /\ e.r = EADDRINUSE => B(e.inj) \/ \E k \in DOMAIN s.K : k # e.s /\ s.K[k].open /\ s.K[k].a = e.a /\ s.K[k].k \in {"lsn", "hl", "dg", "hd", "bound"}
     /\ s' = IF e.r = 0
             THEN [s EXCEPT !.K[e.s].k = IF X.t = "s" THEN "bound" ELSE "dg", !.K[e.s].a = e.a, !.K[e.s].un = e.a <= 3]
             ELSE [s EXCEPT !.K[e.s].k = "fail",
                            !.st = IF e.r # EADDRNOTAVAIL /\ Top(s).k = "start" THEN [@ EXCEPT ![Len(@)].err = TRUE] ELSE @]
Listen(e) ==
  /\ e.op = "listen" /\ InCall /\ IsOpen(s, e.s) /\ s.K[e.s].k = "bound"
  /\ s' = IF e.r = 0 THEN [s EXCEPT !.K[e.s].k = "lsn"]
          ELSE [s EXCEPT !.K[e.s].k = "fail", !.st = IF Top(s).k = "start" THEN [@ EXCEPT ![Len(@)].err = TRUE] ELSE @]
Connect(e) ==
  /\ e.op = "connect" /\ InCall /\ IsOpen(s, e.s) /\ s.K[e.s].k = "new" /\ Told(e.s)
  /\ s.X[s.K[e.s].c].t = "c" /\ e.a = s.X[s.K[e.s].c].a
  /\ LET L == Listening(s, e.a) IN
     s' = IF e.r \in {0, EINPROGRESS, EAGAIN}
          THEN [s EXCEPT !.K[e.s].k = "att", !.K[e.s].cr = e.r, !.K[e.s].a = e.a, !.K[e.s].un = e.a <= 3,
                         !.K[e.s].ls = IF L = {} THEN 0 ELSE CHOOSE k \in L : \A j \in L : j <= k]
          ELSE [s EXCEPT !.K[e.s].k = "fail"]
AcceptC(e) ==
  /\ e.op = "accept" /\ TopIs(s, "step") /\ IsOpen(s, e.s) /\ s.K[e.s].k = "lsn" /\ ~s.K[e.s].h
  /\ IF e.r < 0 THEN s' = s
     ELSE LET c == s.K[e.s].c
              n == [NewSock(c, FALSE, "acc") EXCEPT !.a = s.K[e.s].a, !.un = s.K[e.s].un, !.peer = e.p] IN
          IF e.p \in DOMAIN s.K
          THEN /\ s.K[e.p].peer = -1
               /\ s' = [s EXCEPT !.K = Put([@ EXCEPT ![e.p].peer = e.n], e.n, n)]
          ELSE s' = [s EXCEPT !.K = Put(@, e.n, n)]
Gpn(e) == e.op = "gpn" /\ IsOpen(s, e.s) /\ s' = [s EXCEPT !.K[e.s].gp = TRUE]
Rd(e) ==
  /\ e.op = "rd" /\ TopIs(s, "step") /\ IsOpen(s, e.s)
  /\ LET K == s.K[e.s] IN
     /\ ~K.h /\ ~K.sus /\ ~K.cause /\ TLCEval(AllDelivered(s, e.s))
     /\ IF K.k = "dg"
        THEN IF e.n < 0 THEN s' = [s EXCEPT !.K[e.s].cur = <<>>, !.K[e.s].curp = -1]
             ELSE \E huge \in {"given", "refused"} : \E i \in {j \in DOMAIN K.inq : K.inq[j].from = e.p /\ e.n <= K.inq[j].len} :
                  LET d == K.inq[i]
                      x == IF e.n = d.len THEN d.x ELSE TLCEval(RleCut(d.x, e.n))
                  IN
                  \E fr \in {IF s.X[K.c].raw THEN <<>>
                             ELSE IF d.bytes # <<>> THEN Frames(SD!Idle, SubSeq(d.bytes, 1, e.n), 0, huge).fr
                             ELSE IF e.n = d.len THEN d.fr ELSE <<>>} :
                  s' = [s EXCEPT !.lr = e.s, !.K[e.s].inq = RemoveAt(@, i), !.K[e.s].curp = e.p,
                                 !.K[e.s].cur = TLCEval(fr), !.K[e.s].str = IF s.X[K.c].raw THEN x ELSE <<>>,
                                 !.K[e.s].rawp = IF s.X[K.c].raw THEN e.n ELSE 0]
        ELSE /\ K.k = "conn"
             /\ IF e.n <= 0 THEN s' = [s EXCEPT !.K[e.s].cause = TRUE]
                ELSE /\ K.peer \in DOMAIN s.K /\ K.r + e.n <= s.K[K.peer].w
                     /\ s' = [s EXCEPT !.lr = e.s, !.K[e.s].r = @ + e.n, !.K[e.s].rawp = IF s.X[K.c].raw THEN e.n ELSE 0]
Wr(e) ==
  /\ e.op = "wr" /\ s.st # <<>> /\ IsOpen(s, e.s)
  /\ LET K == s.K[e.s]
         snd == Top(s).k = "send" IN
     /\ Top(s).k \in {"step", "send"}
     /\ snd => e.s \in Top(s).T
     /\ K.k \in {"conn", "dg", "closing"} /\ ~K.shut /\ ~K.brk /\ ~K.cause /\ K.q # <<>>
     \* (in a send, only when nothing is waiting)
     /\ snd => K.q[1].id = Top(s).id
     /\ IF e.n < 0
        THEN IF snd THEN Unwritten(Top(s), e.s) /\ s' = [s EXCEPT !.st[Len(s.st)].we[e.s] = e.n]
             ELSE IF K.k = "dg" THEN s' = TLCEval(DgramError([s EXCEPT !.lw = e.s], e.s))
             ELSE s' = [s EXCEPT !.K[e.s].cause = TRUE]
        ELSE IF K.k = "dg" THEN /\ e.n = K.q[1].len /\ K.q[1].off = 0 /\ e.d = K.q[1].d
                                /\ \E d \in IF AtAddr(s, e.d) = {} THEN {0} ELSE AtAddr(s, e.d) : s' = TLCEval(DgramOut([s EXCEPT !.lw = e.s], e.s, d))
        ELSE e.n <= K.q[1].len - K.q[1].off /\ s' = TLCEval(Written([s EXCEPT !.lw = e.s], e.s, e.n))
Shut(e) ==
  /\ e.op = "shut" /\ s.st # <<>> /\ IsOpen(s, e.s)
  /\ \/ TopIs(s, "disc") /\ Top(s).s = e.s
     \/ s.K[e.s].k = "closing"
     \* what was written in part cannot be queued
     \/ TopIs(s, "send") /\ e.s \in Top(s).T /\ Partly(Top(s), e.s) /\ s.st[1].flt
  /\ s' = [s EXCEPT !.K[e.s].shut = TRUE]

\* ---- closing sockets -------------------------------------------------------
\* the context is being stopped by the call on top of the stack (or in the loop)
BeingStopped(c) == \/ TopIs(s, "stop") /\ Top(s).sync /\ Top(s).c = c
                   \/ TopIs(s, "step") /\ s.X[c].stopping
Excused(k) == \* reasons for a connection that was established to be lost before being seen
  LET K == s.K[k] IN
  \/ K.gp \/ (K.peer \in DOMAIN s.K /\ ~s.K[K.peer].open)
  \/ (K.k = "acc" /\ K.peer \notin DOMAIN s.K)
  \/ (K.k = "att" /\ (K.cr # 0 \/ ~IsOpen(s, K.ls)))
Close(e) ==
  /\ e.op = "close" /\ s.st # <<>> /\ IsOpen(s, e.s)
  /\ LET K == s.K[e.s]
         c == K.c
         \* (whose it was is forgotten: the choices that were possible lead to the same state again)
         t == [s EXCEPT !.K[e.s].open = FALSE, !.K[e.s].c = -1]
         nf(b, u) == IF b THEN u ELSE NeedFault(u)
         again(u) == Retry(u, c) IN
     CASE K.h -> FALSE
       [] K.k = "acc" -> TopIs(s, "step") /\ s' = nf(Len(s.X[c].conns) >= MaxConns \/ Excused(e.s) \/ s.X[c].stopping, t)
       [] K.k = "conn" -> FALSE
       [] K.k = "closing" -> /\ K.comp = <<>> /\ (s.X[c].scb => K.q = <<>>)
                             /\ BeingStopped(c) \/ TopIs(s, "step")
                             /\ s' = IF s.X[c].t = "c" /\ ~BeingStopped(c) THEN again(t) ELSE t
       [] K.k = "dg" -> /\ IF BeingStopped(c) THEN K.comp = <<>> /\ (s.X[c].scb => K.q = <<>>) /\ s' = t
                           ELSE InCall /\ s' = NeedFault(again(t))
       [] OTHER -> IF BeingStopped(c) THEN s' = IF TopIs(s, "step") THEN again(t) ELSE t
                   ELSE /\ InCall
                        /\ s' = nf(K.k = "fail" \/ Excused(e.s), again(t))

\* ---- callbacks -------------------------------------------------------------
CbFrame(e) == Base @@ [k |-> "cb", kind |-> e.k, c |-> e.c, s |-> e.s,
                       x |-> IF Has(e, "x") THEN e.x ELSE <<>>, len |-> IF Has(e, "len") THEN e.len ELSE 0,
                       fds |-> IF Has(e, "fds") THEN e.fds ELSE <<>>]
CbSock(e) ==
  /\ e.k = "sock" /\ InCall
  /\ LET K == s.K[e.s] IN
     /\ s.X[e.c].kcb /\ ~K.kn
     /\ e.kind = IF K.k = "acc" THEN 1 ELSE CASE s.X[e.c].t = "s" -> 0 [] s.X[e.c].t = "c" -> 2 [] OTHER -> 3
     /\ K.k \in {"new", "acc"}
     /\ s' = Push([s EXCEPT !.K[e.s].kn = TRUE], CbFrame(e))
CbConn(e) ==
  /\ e.k = "conn" /\ TopIs(s, "step") /\ (e.ok = 1 \/ s.st[1].flt)
  /\ LET K == s.K[e.s]
         X == s.X[e.c] IN
     /\ X.on /\ Told(e.s)
     /\ K.k = (IF X.t = "s" THEN "acc" ELSE "att")
     /\ IF X.t = "s" THEN Len(X.conns) < MaxConns ELSE X.t = "c" /\ X.conns = <<>>
     /\ e.fl = 3
     /\ IF K.un THEN e.ka = <<>> ELSE e.ka = X.ka \/ s.rx
     /\ s' = Push([s EXCEPT !.K[e.s].k = "conn", !.K[e.s].ka = e.ka, !.X[e.c].conns = <<e.s>> \o @], CbFrame(e))
\* an error does not make what the peer sent before lost (on inet sockets, the system may drop it): all was read,
\* unless reading was suspended when the step started
AllRead(e) ==
  LET K == s.K[e.s] IN
  \/ ~K.un \/ K.sus \/ Has(e, "ag") \/ K.peer \notin DOMAIN s.K
  \/ (TopIs(s, "step") /\ e.s \in Top(s).su)
  \/ K.r = s.K[K.peer].w
CbDisc(e) ==
  /\ e.k = "disc" /\ (e.ok = 1 \/ s.rx)
  /\ BeingStopped(e.c) \/ TopIs(s, "step")
  /\ LET K == s.K[e.s]
         t == [s EXCEPT !.K[e.s].k = "closing", !.X[e.c].conns = Without(@, e.s), !.K[e.s].cause = FALSE] IN
     /\ K.k = "conn" /\ e.s \in Range(s.X[e.c].conns) /\ TLCEval(AllDelivered(s, e.s))
     /\ s' = Push(IF K.cause \/ K.shut \/ K.brk \/ BeingStopped(e.c) \/ (~PeerUp(s, e.s) /\ AllRead(e)) THEN t ELSE NeedFault(t), CbFrame(e))
CbMsg(e) ==
  /\ e.k = "msg" /\ TopIs(s, "step")
  /\ LET K == s.K[e.s] IN
     /\ ~s.X[e.c].raw /\ s.X[e.c].on
     /\ IF K.k = "dg"
        THEN \E i \in TLCEval(Deliv(K.cur, 1000000000, 1, e.x, e.len)) :
             /\ e.p = K.curp
             /\ TLCEval(FdsOk(s, K.cur[i], e.fds, FALSE))
             /\ s' = Push([s EXCEPT !.K[e.s].cur = SubSeq(@, i + 1, Len(@))], CbFrame(e))
        ELSE /\ K.k = "conn" /\ K.peer \in DOMAIN s.K
             /\ LET F == s.K[K.peer].fr IN
                \E i \in TLCEval(Deliv(F, K.r, 1, e.x, e.len)) :
                /\ TLCEval(FdsOk(s, F[i], e.fds, Local(s, e.s)))
                /\ s' = Push([s EXCEPT !.K[K.peer].fr = SubSeq(@, i + 1, Len(@))], CbFrame(e))
CbRaw(e) ==
  /\ e.k = "raw" /\ TopIs(s, "step")
  /\ LET K == s.K[e.s] IN
     /\ s.X[e.c].raw /\ s.X[e.c].on /\ e.len = K.rawp /\ e.len > 0
     /\ IF K.k = "dg" THEN e.p = K.curp /\ e.x = K.str /\ s' = Push([s EXCEPT !.K[e.s].rawp = 0], CbFrame(e))
        ELSE /\ K.k = "conn"
             /\ \E p \in {Pop(s.K[K.peer].str, e.x)} :
                p.ok /\ s' = Push([s EXCEPT !.K[e.s].rawp = 0, !.K[K.peer].str = p.rest], CbFrame(e))
CbSent(e) ==
  /\ e.k = "sent" /\ e.ok = 1 /\ s.st # <<>> /\ Top(s).k \in {"step", "stop", "disc"} /\ s.X[e.c].scb
  /\ LET K == s.K[e.s]
         F == IF K.comp # <<>> THEN K.comp[1] ELSE Compl(K.q[1], StAborted, Tail(K.q)) IN
     /\ K.comp # <<>> \/ (K.q # <<>> /\ (K.k = "closing" \/ (K.k = "dg" /\ BeingStopped(e.c))))
     /\ e.x = F.x /\ e.len = F.len /\ e.fds = F.fds /\ e.st = F.st
     /\ s' = Push(IF K.comp # <<>> THEN [s EXCEPT !.K[e.s].comp = Tail(@)] ELSE [s EXCEPT !.K[e.s].q = Tail(@), !.K[e.s].ab = TRUE], CbFrame(e))
Cb(e) == /\ e.op = "cb" /\ e.c \in DOMAIN s.X /\ IsOpen(s, e.s) /\ s.K[e.s].c = e.c
         /\ \/ CbSock(e) \/ CbConn(e) \/ CbDisc(e) \/ CbMsg(e) \/ CbRaw(e) \/ CbSent(e)
CbEnd(e) == e.op = "cbend" /\ TopIs(s, "cb") /\ s' = PopF(s)

\* ---- the loop --------------------------------------------------------------
StepB(e) == e.op = "step" /\ s.st = <<>> /\ s' = Push([s EXCEPT !.lr = 0, !.lw = 0], Base @@ [k |-> "step", l |-> e.l, su |-> {k \in DOMAIN s.K : s.K[k].sus}])
StepE(e) ==
  /\ e.op = "stepend" /\ TopIs(s, "step") /\ Len(s.st) = 1
  /\ TLCEval(Settled(s))
  /\ Top(s).nf => (Top(s).flt \/ Flt(e))
  /\ e.r \in {0, ETIMEDOUT} \/ Flt(e) \/ Top(s).flt
  /\ s' = PopF(Note(s, e))

\* everything that could be processed has been
WIx(e) == TLCEval([k \in {e.w[i][1] : i \in DOMAIN e.w} |-> CHOOSE i \in DOMAIN e.w : e.w[i][1] = k])
QItems(t) == UNION {{t.K[k].q[i] : i \in DOMAIN t.K[k].q} : k \in {k \in DOMAIN t.K : t.K[k].open /\ ~t.K[k].h}}
RECURSIVE SumFds(_)
SumFds(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Cardinality({i \in DOMAIN x.fds : x.fds[i] >= 0}) + SumFds(S \ {x})
\* (by identity of the message sent, however many connections wait for it)
QFds(t) == SumFds({[id |-> x.id, fds |-> x.fds] : x \in QItems(t)})
KFds(t) == SumFds({[i |-> i, fds |-> t.kept[i].fds] : i \in DOMAIN t.kept})
Exactly(t) == \A k \in DOMAIN t.K : t.K[k].open /\ ~t.K[k].h /\ t.K[k].k = "conn" /\ t.K[k].un /\ t.K[k].peer \in DOMAIN t.K =>
                 LET p == t.K[t.K[k].peer] IN ~p.fdx /\ p.hp = <<>> /\ (p.fr = <<>> \/ p.fr[1].fds = <<>> \/ t.K[k].r <= p.fr[1].end - p.fr[1].len)
QuietOk(t, e, rx) ==
  LET ix == WIx(e)
      in(k) == e.w[ix[k]][2] = 1
      out(k) == e.w[ix[k]][3] = 1
      err(k) == e.w[ix[k]][4] # 0
      ks == {k \in DOMAIN t.K : t.K[k].open /\ ~t.K[k].h} IN
  /\ DOMAIN ix = ks
  /\ \A k \in ks :
       LET K == t.K[k] IN
       /\ K.k \in {"lsn", "att", "conn", "dg"}
       \* configured as it must be, and not changed since
       /\ e.w[ix[k]][5] = 3
       /\ K.k = "conn" => e.w[ix[k]][6] = K.ka
       /\ rx \/ (/\ K.k = "lsn" => ~in(k)
                 /\ K.k = "att" => ~out(k) /\ ~err(k)
                 /\ K.k \in {"conn", "dg"} => /\ K.sus \/ (~in(k) /\ ~err(k))
                                              \* (an error ends a connection even if it is not read)
                                              /\ K.k = "conn" => e.w[ix[k]][4] # 2
                                              /\ K.q # <<>> => ~out(k)
                                              /\ K.comp = <<>>
                                              /\ ~K.brk)
  /\ rx \/ e.busy = 0 \/ \E k \in ks : t.K[k].sus
  /\ rx \/ \A c \in DOMAIN t.X :
             LET X == t.X[c] IN
             X.on /\ ~X.failed /\ ~X.stopping => OpenOf(t, c) # {} \/ X.due > t.now
  \* none is left after a stop
  /\ \A c \in DOMAIN t.X : ~t.X[c].on => OpenOf(t, c) = {}
  /\ Exactly(t) => e.mfd = QFds(t) + KFds(t)
Quiet(e) ==
  /\ e.op = "quiet" /\ s.st = <<>>
  /\ LET dn == {c \in DOMAIN s.X : s.X[c].stopping}
         t == TLCEval([s EXCEPT !.X = TLCEval([c \in DOMAIN s.X |-> IF c \in dn THEN Stopped(s, c).X[c] ELSE s.X[c]]),
                                !.px = IF \E c \in dn : s.X[c].t = "s" /\ s.X[c].a = 3 THEN 0 ELSE @]) IN
     /\ e.busy = 0 => \A c \in dn : OpenOf(s, c) = {}
     /\ LET u == IF e.busy = 0 THEN t ELSE s IN TLCEval(QuietOk(u, e, s.rx)) /\ s' = u
End(e) == /\ e.op = "end" /\ e.r = 0 /\ e.nalloc = 0 /\ e.n = 0 /\ e.nsync = 0 /\ s.st = <<>> /\ DOMAIN s.X = {} /\ s' = s
Fin(e) == e.op = "fin" /\ s' = s

\* ---- the harness -----------------------------------------------------------
HNew(e) == /\ e.op \in {"hlisten", "hconnect", "hbind"}
           /\ s' = [s EXCEPT !.K = Put(@, e.s, [NewSock(-1, TRUE, CASE e.op = "hlisten" -> "hl" [] e.op = "hconnect" -> "hc" [] OTHER -> "hd")
                                                EXCEPT !.a = e.a, !.un = e.a <= 3]),
                             !.px = IF e.a = 3 /\ e.op # "hconnect" THEN 2 ELSE @]
HAccept(e) == /\ e.op = "haccept"
              /\ LET n == [NewSock(-1, TRUE, "hc") EXCEPT !.peer = e.p, !.un = IF e.p \in DOMAIN s.K THEN s.K[e.p].un ELSE FALSE] IN
                 s' = [s EXCEPT !.K = Put(IF e.p \in DOMAIN s.K THEN [@ EXCEPT ![e.p].peer = e.n] ELSE @, e.n, n)]
HW(e) ==
  /\ e.op = "hw"
  /\ \E huge \in {"given", "refused"} : 
     \E f \in {Frames(s.K[e.s].ds, e.x, s.K[e.s].w, huge)} :
     LET K == s.K[e.s]
         n == Len(f.fr)
         cont == K.ds # SD!Idle                     \* the first frame began before
         open == f.st # SD!Idle                     \* the last one is not complete
         new == n - (IF cont /\ n > 0 THEN 1 ELSE 0) + (IF open /\ ~(cont /\ n = 0) THEN 1 ELSE 0)
         \* descriptors must come with the first bytes of the only message that begins
         \* (those of a message whose header turns out to be bad belong to none)
         ok0 == ~K.fdx /\ (e.fds = <<>> \/ (~cont /\ new = 1)) /\ ~(cont /\ n = 0 /\ ~open /\ K.hp # <<>>)
         fds(i) == IF i = 1 /\ cont THEN K.hp ELSE e.fds
         ok == ok0 /\ \A i \in 1 .. n : ~f.fr[i].bad /\ f.fr[i].n = Len(fds(i))
         fr == TLCEval([i \in 1 .. n |-> [f.fr[i] EXCEPT !.fds = fds(i), !.any = ~ok,
                                            \* (it was being received when memory was exhausted)
                                            !.bad = @ \/ f.fr[i].end - f.fr[i].len < K.dr, !.lost = f.fr[i].end - f.fr[i].len < K.dr]]) IN
     s' = [s EXCEPT !.K[e.s].ds = f.st, !.K[e.s].w = @ + Len(e.x), !.K[e.s].acc = @ + Len(e.x),
                    !.K[e.s].fr = @ \o fr, !.K[e.s].str = @ \o e.rx,
                    !.K[e.s].hp = IF ~open THEN <<>> ELSE IF cont /\ n = 0 THEN @ ELSE e.fds,
                    !.K[e.s].fdx = ~ok]
HT(e) == /\ e.op = "ht"
         /\ \E d \in IF AtAddr(s, e.d) = {} THEN {0} ELSE AtAddr(s, e.d) :
              s' = IF d = 0 THEN s
                   ELSE [s EXCEPT !.K[d].inq = Append(@, [x |-> Rle(e.x, 1, <<>>), len |-> Len(e.x), from |-> s.K[e.s].a, fr |-> <<>>, bytes |-> e.x])]
HR(e) ==
  /\ e.op = "hr"
  /\ LET K == s.K[e.s] IN
     IF K.k = "hd"
     THEN \E i \in {j \in DOMAIN K.inq : K.inq[j].x = e.x /\ K.inq[j].from = e.p} : s' = [s EXCEPT !.K[e.s].inq = RemoveAt(@, i)]
     ELSE IF e.n <= 0 THEN s' = s
     ELSE /\ K.peer \in DOMAIN s.K /\ K.r + e.n <= s.K[K.peer].w
          /\ \E p \in {Pop(s.K[K.peer].str, e.x)} :
             p.ok /\ s' = [s EXCEPT !.K[e.s].r = @ + e.n, !.K[K.peer].str = p.rest]
HShut(e) == e.op = "hshut" /\ s' = [s EXCEPT !.K[e.s].shut = TRUE]
HClose(e) == e.op = "hclose" /\ s' = [s EXCEPT !.K[e.s].open = FALSE]

Step(e) ==
  \/ Hit(e) \/ Ret(e) \/ Socket(e) \/ Bind(e) \/ Listen(e) \/ Connect(e) \/ AcceptC(e) \/ Gpn(e) \/ Rd(e) \/ Wr(e) \/ Shut(e) \/ Close(e)
  \/ Cb(e) \/ CbEnd(e) \/ StepB(e) \/ StepE(e) \/ Quiet(e) \/ End(e) \/ Fin(e)
  \/ /\ Calling
     /\ \/ New(e) \/ Destroy(e) \/ Start(e) \/ Stop(e) \/ Send(e) \/ Disc(e) \/ Sus(e) \/ Rbl(e) \/ Ka(e) \/ LAddr(e) \/ Set(e) \/ List(e) \/ Adv(e)
        \/ Keep(e) \/ Chk(e) \/ Path(e) \/ HNew(e) \/ HAccept(e) \/ HW(e) \/ HT(e) \/ HR(e) \/ HShut(e) \/ HClose(e)

Next == /\ l <= Len(Traces[tid].ev)
        /\ Step(Ev)
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ TLCSet(tid, l')

Spec == Init /\ [][Next]_vars

InitReg == \A t \in 1 .. NT : TLCSet(t, 1)
ASSUME InitReg
Rejected == {t \in 1 .. NT : TLCGet(t) # Len(Traces[t].ev) + 1}
Report == /\ PrintT(<<"TOTAL", NT, "REJECTED", Cardinality(Rejected)>>)
          /\ \A t \in Rejected : PrintT(<<"REJECT", t, TLCGet(t)>>)
=============================================================================
