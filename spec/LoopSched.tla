---------------------------- MODULE LoopSched -------------------------------
(* What threads may observe of a loop: the idle queue, events and wake-ups used
   from any thread, and the watchdog of the loop.

   A call of a thread takes effect at one instant between its beginning and its
   end (Lin); the loop thread takes an idle entry, or clears an event, at one
   instant before it calls the callback (PopIdle, ClearEvt).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoOp == [c |-> "none"]
NoPend == [k |-> "none"]
None == [k |-> "none"]

InitState(nth, evts) ==
  [ q |-> <<>>,            \* idle entries
    n |-> 1,               \* entries ever added
    sig |-> {},            \* events signalled
    evts |-> evts,
    wm |-> 0,              \* wake-up: 0 none, 1 perhaps, 2 one is pending
    wnext |-> 0,           \* the same, for the step after this one
    op |-> [t \in 0 .. nth - 1 |-> NoOp],
    done |-> {},           \* threads that ended
    st |-> <<>>,           \* stack of the loop thread: steps, flushes, callbacks
    pend |-> NoPend,       \* what the loop thread is about to call
    wd |-> [en |-> FALSE, d |-> 0, ud |-> 0, oud |-> 0, dl |-> -1, call |-> FALSE] ]

Top(s) == s.st[Len(s.st)]
SetTop(s, f) == [s EXCEPT !.st[Len(s.st)] = f]
Push(s, f) == [s EXCEPT !.st = Append(@, f)]
Pop(s) == [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
InStep(s) == \E i \in DOMAIN s.st : s.st[i].k = "step"
StepOf(s) == s.st[1]       \* steps are not nested: when there is one, it is the first frame
Waited(s) == s.st # <<>> /\ StepOf(s).k = "step" /\ StepOf(s).w

Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
FirstOf(q, ck) == LET m == {i \in DOMAIN q : ck = 0 \/ q[i].ck = ck} IN
                  IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : i <= j

\* effect of the call of thread t
Effect(s, t) ==
  LET o == s.op[t]
      s1 == [s EXCEPT !.op[t].lin = TRUE] IN
  CASE o.c = "iadd" -> [s1 EXCEPT !.q = Append(@, [cb |-> o.cb, ud |-> o.ud, ck |-> o.ck, id |-> s.n, done |-> FALSE]),
                                  !.n = @ + 1, !.op[t].id = s.n]
    [] o.c = "irem" -> LET keep(x) == ~(x.cb = o.cb /\ x.ud = o.ud) IN [s1 EXCEPT !.q = SelectSeq(@, keep)]
    [] o.c = "iremc" -> LET keep(x) == x.ck # o.ck IN [s1 EXCEPT !.q = SelectSeq(@, keep)]
    [] o.c = "wake" -> IF Waited(s) /\ StepOf(s).wp THEN [s1 EXCEPT !.wnext = IF @ = 2 THEN 2 ELSE 1]
                       ELSE IF Waited(s) THEN [s1 EXCEPT !.wnext = 2]
                       ELSE [s1 EXCEPT !.wm = 2]
    [] o.c = "esig" -> [s1 EXCEPT !.sig = @ \cup {o.e}]
    [] o.c = "eclr" -> LET s2 == [s1 EXCEPT !.sig = @ \ {o.e}] IN
                       IF Waited(s) THEN [s2 EXCEPT !.st[1].me = @ \ {o.e}] ELSE s2
CanLin(s, t) == s.op[t].c # "none" /\ ~s.op[t].lin
EndOp(s, t) ==
  LET o == s.op[t]
      s1 == [s EXCEPT !.op[t] = NoOp] IN
  IF o.c = "iadd" THEN [s1 EXCEPT !.q = [i \in DOMAIN @ |-> IF @[i].id = o.id THEN [@[i] EXCEPT !.done = TRUE] ELSE @[i]]]
  ELSE s1

\* the loop thread takes an idle entry: one in a step, the first one; in a flush the first with the cookie
CanPop(s) == /\ s.pend.k = "none" /\ s.st # <<>>
             /\ \/ Top(s).k = "step" /\ Top(s).w /\ ~Top(s).idle /\ s.q # <<>>
                \/ Top(s).k = "flush" /\ FirstOf(s.q, Top(s).ck) # 0
PopIdle(s) ==
  LET f == Top(s)
      i == IF f.k = "step" THEN 1 ELSE FirstOf(s.q, f.ck)
      s1 == [s EXCEPT !.pend = [k |-> "i", cb |-> s.q[i].cb, ud |-> s.q[i].ud], !.q = Drop(@, i)] IN
  IF f.k = "step" THEN SetTop(s1, [f EXCEPT !.idle = TRUE]) ELSE s1
\* the loop thread clears an event and is going to notify it: once per step
CanClear(s, e) == /\ s.pend.k = "none" /\ s.st # <<>> /\ Top(s).k = "step" /\ Top(s).w
                  /\ e \in s.sig /\ e \notin Top(s).ce
ClearEvt(s, e) == SetTop([s EXCEPT !.pend = [k |-> "e", e |-> e], !.sig = @ \ {e}],
                         [Top(s) EXCEPT !.ce = @ \cup {e}, !.me = @ \ {e}])

\* watchdog
WdMay(s, now) == Waited(s) /\ s.wd.dl >= 0 /\ now >= s.wd.dl
WdMust(s, now) == WdMay(s, now)
=============================================================================
