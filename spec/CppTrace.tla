------------------------------ MODULE CppTrace ------------------------------
(* Validation of the C++ binding (libpomp.hpp): its messages are those of the  *)
(* wire format; its contexts announce each connection once, keep the array of  *)
(* the connected ones, and deliver in order what the peer sent; its events,    *)
(* timers and loops call the handler they were given.                          *)
EXTENDS Wire, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)
VARIABLES tid, l, s
vars == <<tid, l, s>>
Ev == Traces[tid].ev[l]

\* X: contexts; K: connections; cbs: contexts whose callbacks are in progress (-1: none);
\* st: expected results of the calls in progress; E, T, F: events, timers, descriptors; step: one is in progress
InitState == [X |-> <<>>, K |-> <<>>, cbs |-> <<>>, st |-> <<>>, E |-> <<>>, T |-> <<>>, F |-> <<>>, now |-> 0, step |-> FALSE, wk |-> {}, cur |-> -1, Q |-> <<>>]
Init == tid \in 1 .. NT /\ l = 1 /\ s = InitState

Put(f, k, v) == (k :> v) @@ f
Range(q) == {q[i] : i \in DOMAIN q}
EBUSY == -16
ENOTCONN == -107
Res(r) == [k |-> "res", r |-> r, c |-> -1]
Free == [k |-> "any", r |-> 0, c |-> -1]

\* ---- messages --------------------------------------------------------------
Vals(e) == [i \in 1 .. e.n |-> e["v" \o ToString(i)]]
RECURSIVE EncAll(_, _, _)
EncAll(T, A, i) == IF i > Len(T) THEN <<>> ELSE EncArg(T[i], A[i]) \o EncAll(T, A, i + 1)
CW(e) ==
  /\ e.op = "cw" /\ s' = s
  /\ TLCEval(IF \E i \in 1 .. e.n : ~EncodableArg(e.t[i], e["v" \o ToString(i)]) THEN e.r < 0
             ELSE \/ e.flt > 0 /\ e.r < 0
                  \/ e.r = 0 /\ \E p \in {EncAll(e.t, Vals(e), 1)} : e.mid = e.id /\ e.x = Header(e.id, HeaderSize + Len(p)) \o p)
NaN(t, v) == CASE t = F32 -> v[4] % 128 = 127 /\ v[3] >= 128
               [] t = F64 -> v[8] % 128 = 127 /\ v[7] >= 240
               [] OTHER -> FALSE
RECURSIVE DecAll(_, _, _, _, _)
DecAll(d, p, T, i, acc) ==
  IF i > Len(T) THEN [ok |-> TRUE, v |-> acc]
  ELSE CHOOSE x \in {IF r.res # "ok" THEN [ok |-> FALSE, v |-> acc]
                     ELSE DecAll(d, r.next, T, i + 1, Append(acc, r.v)) : r \in {DecArg(d, p, T[i], <<>>)}} : TRUE
SameVal(t, a, b) == a = b \/ (Len(a) = Len(b) /\ NaN(t, a) /\ NaN(t, b))
CR(e) ==
  /\ e.op = "cr" /\ s' = s
  /\ e.mid = SubSeq(e.x, 5, 8)
  /\ TLCEval(IF e.same = 0 THEN e.r < 0
             ELSE \E q \in {DecAll(e.x, HeaderSize, e.t, 1, <<>>)} :
                    /\ (e.r = 0) = q.ok /\ e.r <= 0
                    /\ q.ok \/ e.k = 0 => e.n = Len(q.v) /\ \A i \in 1 .. e.n : SameVal(e.t[i], e["v" \o ToString(i)], q.v[i]))
CFd(e) == /\ e.op = "cfd" /\ e.r = 0 /\ e.rr = 0 /\ e.a = 5 /\ e.own = 1 /\ e.same = 1 /\ e.s = <<97, 98>> /\ e.closed = 1 /\ s' = s

\* ---- contexts --------------------------------------------------------------
Push(t, r) == [t EXCEPT !.st = Append(@, r)]
Conns(c) == s.X[c].conns
Peer(t, k) == {p \in DOMAIN t.K : p # k /\ t.K[p].open /\ t.K[p].lp = t.K[k].pp /\ t.K[p].pp = t.K[k].lp}
LastPeer(t, k) == {p \in DOMAIN t.K : p # k /\ t.K[p].lp = t.K[k].pp /\ t.K[p].pp = t.K[k].lp}
\* the connections c, and the other end of each, may end from now on
Doomed(t, ks) == [t EXCEPT !.K = [k \in DOMAIN @ |-> IF k \in ks \/ \E p \in ks : k \in LastPeer(t, p) THEN [@[k] EXCEPT !.end = TRUE] ELSE @[k]]]
CNew(e) == e.op = "cnew" /\ e.r = 0 /\ s' = [s EXCEPT !.X = Put(@, e.c, [on |-> FALSE, stopping |-> FALSE, srv |-> FALSE, raw |-> e.raw = 1, dg |-> FALSE, bad |-> FALSE, port |-> 0, conns |-> <<>>])]
CDel(e) == /\ e.op = "cdel" /\ ~s.X[e.c].on /\ Conns(e.c) = <<>>
           /\ s' = [s EXCEPT !.X = [c \in DOMAIN @ \ {e.c} |-> @[c]]]
CStart(e) ==
  /\ e.op = "cstart" /\ e.ok = 1
  /\ LET X == s.X[e.c]
         go == Push([s EXCEPT !.X[e.c].on = TRUE, !.X[e.c].stopping = FALSE, !.X[e.c].srv = e.t = "s", !.X[e.c].dg = e.t = "b",
                              !.X[e.c].port = e.a, !.X[e.c].bad = FALSE, !.Q = IF e.t = "b" THEN Put(@, e.a, <<>>) ELSE @], Res(0)) IN
     IF ~X.on THEN s' = go
     ELSE \/ s' = Push(s, Res(EBUSY))
          \/ X.stopping /\ X.conns = <<>> /\ s' = go
CStop(e) ==
  /\ e.op = "cstop"
  /\ LET X == s.X[e.c] IN
     IF ~X.on \/ X.stopping THEN s' = Push(s, Free)
     ELSE s' = Push([Doomed(s, Range(X.conns)) EXCEPT !.X[e.c].stopping = TRUE], [k |-> "stop", r |-> 0, c |-> e.c])
Frame(id, v) == CHOOSE x \in {Header(id, HeaderSize + Len(p)) \o p : p \in {EncArg(BUF, v)}} : TRUE
Wire_(e) == IF e.raw = 1 THEN e.a ELSE Frame(e.id, e.a) \* what is sent
Sent(t, ks, x) == [t EXCEPT !.K = [k \in DOMAIN @ |-> IF k \in ks /\ ~@[k].shut THEN [@[k] EXCEPT !.out = @ \o x] ELSE @[k]]]
\* what happens on a connection that is ending is not known
\* the connections being ended may be skipped
Ending == {s.cbs[i].k : i \in DOMAIN s.cbs}
\* the address of a server, and of a datagram context
CLa(e) ==
  /\ e.op = "cla" /\ s' = s
  /\ LET X == s.X[e.c] IN X.on /\ ~X.stopping /\ (X.srv \/ X.dg) => e.p = X.port
\* datagrams: in order, and lost when nobody is there; after that an error of the system can be reported
Bound(a) == {c \in DOMAIN s.X : s.X[c].on /\ s.X[c].dg /\ s.X[c].port = a}
Sure(a) == \E c \in Bound(a) : ~s.X[c].stopping
CSendTo(e) ==
  /\ e.op = "csendto"
  /\ LET X == s.X[e.c]
         ok == X.on /\ X.dg
         sure == Sure(e.to) /\ ~X.bad /\ ~X.stopping IN
     IF ~ok THEN s' = Push(s, Free)
     ELSE IF Bound(e.to) = {} THEN s' = Push([s EXCEPT !.X[e.c].bad = TRUE], Free)
     ELSE \E x \in {TLCEval(Wire_(e))} :
            s' = Push([s EXCEPT !.Q = Put(@, e.to, Append(@[e.to], [x |-> x, sure |-> sure])), !.X[e.c].bad = @ \/ ~Sure(e.to)],
                      IF sure THEN Res(0) ELSE Free)
CSend(e) ==
  /\ e.op = "csend"
  /\ LET X == s.X[e.c]
         any == \E k \in Range(X.conns) : s.K[k].end \/ s.K[k].shut \/ Peer(s, k) = {} IN
     IF X.raw # (e.raw = 1) THEN s' = Push(s, Free)
     ELSE IF X.conns = <<>> THEN s' = Push(s, IF X.on /\ ~X.stopping /\ X.srv THEN Res(0) ELSE Free)
     ELSE \E x \in {TLCEval(Wire_(e))} : \E ks \in {Range(X.conns), Range(X.conns) \ Ending} :
            s' = TLCEval(Push(Sent(s, ks, x), IF any \/ x = <<>> THEN Free ELSE Res(0)))
KSend(e) ==
  /\ e.op = "ksend"
  /\ LET K == s.K[e.c] IN
     \E x \in {TLCEval(Wire_(e))} : s' = TLCEval(Push(Sent(s, {e.c}, x), IF K.end \/ K.shut \/ Peer(s, e.c) = {} \/ x = <<>> THEN Free ELSE Res(0)))
KDisc(e) ==
  /\ e.op = "kdisc"
  /\ s' = Push([Doomed(s, {e.c}) EXCEPT !.K[e.c].shut = TRUE], IF s.K[e.c].end \/ s.K[e.c].shut THEN Free ELSE Res(0))
Ret(e) ==
  /\ e.op = "ret" /\ s.st # <<>>
  /\ LET x == s.st[Len(s.st)]
         t == [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)] IN
     CASE x.k = "any" -> s' = t
       [] x.k = "res" -> e.r = x.r /\ s' = t
       \* a stop is immediate, or done by the loop when asked in a callback of the context
       [] x.k = "stop" -> /\ e.r = 0
                          /\ \/ s.X[x.c].conns = <<>> /\ s' = [t EXCEPT !.X[x.c].on = FALSE, !.X[x.c].stopping = FALSE]
                             \/ (\E i \in DOMAIN s.cbs : s.cbs[i].c = x.c) /\ s' = t

In(t, c, k) == [t EXCEPT !.cbs = Append(@, [c |-> c, k |-> k])]
Seen(e, cs) == e.arr = cs /\ e.first = (IF cs = <<>> THEN -1 ELSE cs[1])
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* the other end, known or closed
Other(k) == LET q == LastPeer(s, k) IN IF q = {} THEN -1 ELSE CHOOSE p \in q : \A x \in q : x <= p
Recv(e, x) == LET p == Other(e.s) IN
  /\ p >= 0 /\ x # <<>> /\ IsPrefix(x, s.K[p].out)
  /\ s' = In([s EXCEPT !.K[p].out = SubSeq(@, Len(x) + 1, Len(@))], e.c, -1)
Cb(e) ==
  /\ e.op = "cb"
  /\ CASE e.k = "conn" ->
            /\ e.ok = 1 /\ s.X[e.c].on /\ e.s \notin DOMAIN s.K
            /\ s.X[e.c].srv \/ Conns(e.c) = <<>>
            /\ \E cs \in {Append(Conns(e.c), e.s)} :
                 /\ Seen(e, cs)
                 /\ s' = In([s EXCEPT !.X[e.c].conns = cs,
                              !.K = Put(@, e.s, [c |-> e.c, lp |-> e.lp, pp |-> e.pp, open |-> TRUE, shut |-> FALSE, out |-> <<>>,
                                         end |-> \E p \in DOMAIN s.K : s.K[p].end /\ s.K[p].lp = e.pp /\ s.K[p].pp = e.lp])], e.c, -1)
       \* it is in the array until its end was notified
       [] e.k = "disc" ->
            /\ e.ok = 1 /\ e.s \in Range(Conns(e.c)) /\ Seen(e, Conns(e.c))
            /\ s.K[e.s].end \/ s.X[e.c].stopping \/ Peer(s, e.s) = {}
            /\ ~\E i \in DOMAIN s.cbs : s.cbs[i].k = e.s
            /\ s' = In([s EXCEPT !.K[e.s].open = FALSE, !.K[e.s].end = TRUE], e.c, e.s)
       [] e.k = "msg" /\ s.X[e.c].dg ->
            /\ e.ok = 1 /\ s.step /\ s.X[e.c].on /\ e.s = -1 /\ Seen(e, <<>>)
            /\ \E x \in {TLCEval(Frame(e.id, e.v))} : \E q \in {s.Q[s.X[e.c].port]} : \E i \in DOMAIN q :
                 /\ q[i].x = x /\ \A j \in 1 .. i - 1 : ~q[j].sure
                 /\ s' = In([s EXCEPT !.Q[s.X[e.c].port] = SubSeq(q, i + 1, Len(q))], e.c, -1)
       [] e.k = "msg" /\ ~s.X[e.c].dg ->
            /\ e.ok = 1 /\ s.step /\ ~s.X[e.c].raw /\ e.s \in Range(Conns(e.c)) /\ Seen(e, Conns(e.c))
            /\ \E x \in {TLCEval(Frame(e.id, e.v))} : Recv(e, x)
       [] e.k = "raw" ->
            /\ e.ok = 1 /\ s.step /\ s.X[e.c].raw /\ e.s \in Range(Conns(e.c)) /\ Seen(e, Conns(e.c))
            /\ Recv(e, e.x)
       [] e.k = "ev" -> s.step /\ s.E[e.i].sig /\ s.E[e.i].att /\ s' = In([s EXCEPT !.E[e.i].sig = FALSE], -1, -1)
       [] e.k = "tm" ->
            /\ s.step /\ s.T[e.i].due >= 0 /\ s.T[e.i].due <= s.now
            /\ LET T == s.T[e.i] IN
               s' = In([s EXCEPT !.T[e.i].due = IF T.per = 0 THEN -1 ELSE T.due + T.per * (1 + (s.now - T.due) \div T.per)], -1, -1)
       [] e.k = "fd" -> e.ok = 1 /\ s.step /\ s.F[e.i].reg /\ s.F[e.i].ev /\ s.F[e.i].n > 0 /\ e.n = s.F[e.i].n /\ s' = In([s EXCEPT !.F[e.i].n = 0], -1, -1)
CbEnd(e) ==
  /\ e.op = "cbend" /\ s.cbs # <<>>
  /\ LET f == s.cbs[Len(s.cbs)]
         t == [s EXCEPT !.cbs = SubSeq(@, 1, Len(@) - 1)] IN
     s' = IF f.k < 0 THEN t ELSE [t EXCEPT !.X[f.c].conns = SelectSeq(@, LAMBDA k : k # f.k), !.K[f.k].shut = TRUE]

\* ---- loops -----------------------------------------------------------------
EvC(e) ==
  /\ e.op = "ev"
  /\ IF e.o = "n" THEN e.any = 0 /\ s' = [s EXCEPT !.E = Put(@, e.i, [sig |-> FALSE, att |-> FALSE])]
     ELSE LET E == s.E[e.i] IN
          /\ (e.att = 1) = E.att
          /\ CASE e.o = "d" -> s' = s
               [] e.o = "s" -> e.r = 0 /\ (e.any = 1) = E.att /\ s' = [s EXCEPT !.E[e.i].sig = TRUE]
               [] e.o = "c" -> e.r = 0 /\ (e.any = 1) = E.att /\ s' = [s EXCEPT !.E[e.i].sig = FALSE]
               [] e.o = "a" -> (e.r = 0) = ~E.att /\ e.any = 1 /\ s' = [s EXCEPT !.E[e.i].att = TRUE]
               [] e.o = "r" -> (e.r = 0) = E.att /\ e.any = 0 /\ s' = [s EXCEPT !.E[e.i].att = FALSE]
TmC(e) ==
  /\ e.op = "tm" /\ e.r = 0
  /\ s' = CASE e.o \in {"n", "c"} -> [s EXCEPT !.T = Put(@, e.i, [due |-> -1, per |-> 0])]
            [] e.o \in {"s", "p"} -> [s EXCEPT !.T = Put(@, e.i, [due |-> s.now + e.d, per |-> e.p])]
            [] e.o = "d" -> [s EXCEPT !.T = [i \in DOMAIN @ \ {e.i} |-> @[i]]]
FdC(e) ==
  /\ e.op = "fdl"
  /\ LET f == IF e.i \in DOMAIN s.F THEN s.F[e.i] ELSE [reg |-> FALSE, ev |-> FALSE, n |-> 0]
         put(x) == s' = [s EXCEPT !.F = Put(@, e.i, x)] IN
     CASE e.o = "a" -> (e.r = 0) = ~f.reg /\ e.has = 1 /\ put([f EXCEPT !.reg = TRUE, !.ev = IF f.reg THEN @ ELSE TRUE])
       [] e.o = "u" -> (e.r = 0) = f.reg /\ (e.has = 1) = f.reg /\ put([f EXCEPT !.ev = FALSE])
       [] e.o = "U" -> (e.r = 0) = f.reg /\ (e.has = 1) = f.reg /\ put([f EXCEPT !.ev = f.reg])
       [] e.o = "r" -> (e.r = 0) = f.reg /\ e.has = 0 /\ put([f EXCEPT !.reg = FALSE])
       [] e.o = "w" -> e.r = 0 /\ put([f EXCEPT !.n = @ + 1])
Adv(e) == e.op = "adv" /\ s' = [s EXCEPT !.now = @ + e.ms]
StepB(e) == e.op = "step" /\ ~s.step /\ s' = [s EXCEPT !.step = TRUE, !.cur = e.l]
\* a wakeup is not lost
StepE(e) == /\ e.op = "stepend" /\ s.step /\ s.cbs = <<>> /\ e.r \in {0, -110} /\ (s.cur \in s.wk => e.r = 0)
            /\ s' = [s EXCEPT !.step = FALSE, !.wk = @ \ {s.cur}, !.cur = -1]
Wake(e) == e.op = "wake" /\ e.r = 0 /\ s' = [s EXCEPT !.wk = @ \cup {e.l}]
Um(e) ==
  /\ e.op = "um" /\ e.r = 0 /\ e.rc \in {0, -115} /\ e.bad = 0 /\ (e.mode # 0 => e.m = e.mode) /\ e.m >= 0
  /\ e.con = 11 /\ e.cred = 11 /\ e.conns = 11 /\ e.ry = 0 /\ e.rx = 0 /\ e.dis = 11 /\ e.gone = 1 /\ e.real = 1
  /\ s' = s
Quiet(e) ==
  /\ e.op = "quiet" /\ e.busy = 0 /\ ~s.step /\ s.cbs = <<>> /\ s.st = <<>>
  /\ \A k \in DOMAIN s.K : s.K[k].open =>
       /\ ~s.K[k].end /\ s.K[k].out = <<>> /\ Peer(s, k) # {}
       /\ k \in Range(Conns(s.K[k].c)) /\ ~s.X[s.K[k].c].stopping
  /\ \A c \in DOMAIN s.X : \A k \in Range(Conns(c)) : s.K[k].open
  /\ s.wk = {}
  /\ \A c \in DOMAIN s.X : s.X[c].on /\ s.X[c].dg /\ ~s.X[c].stopping => \A i \in DOMAIN s.Q[s.X[c].port] : ~s.Q[s.X[c].port][i].sure
  /\ \A i \in DOMAIN s.E : ~(s.E[i].sig /\ s.E[i].att)
  /\ \A i \in DOMAIN s.T : s.T[i].due < 0 \/ s.T[i].due > s.now
  /\ \A i \in DOMAIN s.F : ~(s.F[i].reg /\ s.F[i].ev /\ s.F[i].n > 0)
  /\ s' = [s EXCEPT !.X = [c \in DOMAIN @ |-> IF @[c].stopping THEN [@[c] EXCEPT !.on = FALSE, !.stopping = FALSE] ELSE @[c]]]
End(e) == e.op = "end" /\ e.nalloc = 0 /\ e.n = 0 /\ e.nsync = 0 /\ e.nnew = 0 /\ DOMAIN s.X = {} /\ s' = s
Fin(e) == e.op = "fin" /\ s' = s
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Ev IN CW(e) \/ CR(e) \/ CFd(e) \/ CNew(e) \/ CDel(e) \/ CStart(e) \/ CStop(e) \/ CLa(e) \/ CSendTo(e) \/ Wake(e) \/ Um(e) \/ CSend(e) \/ KSend(e) \/ KDisc(e) \/ Ret(e)
                         \/ Cb(e) \/ CbEnd(e) \/ EvC(e) \/ TmC(e) \/ FdC(e) \/ Adv(e) \/ StepB(e) \/ StepE(e) \/ Quiet(e) \/ End(e) \/ Fin(e)
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ TLCSet(tid, l')
Spec == Init /\ [][Next]_vars
ASSUME \A t \in 1 .. NT : TLCSet(t, 1)
Rejected == {t \in 1 .. NT : TLCGet(t) # Len(Traces[t].ev) + 1}
Report == /\ PrintT(<<"TOTAL", NT, "REJECTED", Cardinality(Rejected)>>)
          /\ \A t \in Rejected : PrintT(<<"REJECT", t, TLCGet(t)>>)
=============================================================================
