---------------------------- MODULE SchedTrace ------------------------------
(* Validation of traces of the scheduled driver against LoopSched.            *)
EXTENDS LoopSched, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)
ETIMEDOUT == -110
EINVAL == -22

VARIABLES tid, l, s
vars == <<tid, l, s>>
Ev == Traces[tid].ev[l]
SetOf(q) == {q[i] : i \in DOMAIN q}
Init == /\ tid \in 1 .. NT /\ l = 2
        /\ Traces[tid].ev[1].op = "start"
        /\ s = InitState(Traces[tid].ev[1].nth, SetOf(Traces[tid].ev[1].evts))

Free == IF s.pend.k # "none" THEN FALSE ELSE s.op[0].c = "none"      \* the loop thread is not in a call
Calling == Free /\ (IF s.st = <<>> THEN TRUE ELSE Top(s).k = "cb")

B(e) == /\ e.op = "b" /\ s.op[e.th].c = "none" /\ (e.th = 0 => Calling)
        /\ s' = [s EXCEPT !.op[e.th] =
             CASE e.c = "iadd" -> [c |-> "iadd", cb |-> e.cb, ud |-> e.ud, ck |-> e.ck, lin |-> FALSE, id |-> 0]
               [] e.c = "irem" -> [c |-> "irem", cb |-> e.cb, ud |-> e.ud, lin |-> FALSE]
               [] e.c = "iremc" -> [c |-> "iremc", ck |-> e.ck, lin |-> FALSE]
               [] e.c = "wake" -> [c |-> "wake", lin |-> FALSE]
               [] e.c = "esig" -> [c |-> "esig", e |-> e.e, lin |-> FALSE]
               [] e.c = "eclr" -> [c |-> "eclr", e |-> e.e, lin |-> FALSE]]
E(e) == /\ e.op = "e" /\ e.r = 0 /\ s.op[e.th].c # "none" /\ s.op[e.th].lin
        /\ s' = EndOp(s, e.th)

StepB(e) == /\ e.op = "sb" /\ Free /\ s.st = <<>>
            /\ s' = Push(s, [k |-> "step", to |-> e.to, now |-> e.now, w |-> FALSE, idle |-> FALSE, mi |-> {}, me |-> {},
                             ce |-> {}, wp |-> FALSE, must |-> FALSE])
\* the wait of the step is over: what is pending now is for this step
W(e) == /\ e.op = "w" /\ Free /\ s.st # <<>> /\ Top(s).k = "step" /\ ~Top(s).w
        /\ LET mi == {s.q[i].id : i \in {j \in DOMAIN s.q : s.q[j].done}} IN
           s' = [SetTop(s, [Top(s) EXCEPT !.w = TRUE, !.mi = mi, !.me = s.sig, !.wp = s.wm # 0,
                                          !.must = mi # {} \/ s.sig # {} \/ s.wm = 2,
                                          !.now = e.now - Top(s).now])      \* time waited
                 EXCEPT !.wnext = 0,
                        !.wd.dl = IF s.wd.en THEN e.now + s.wd.d ELSE -1]
StepE(e) ==
  /\ e.op = "se" /\ Free /\ s.st # <<>> /\ Top(s).k = "step" /\ Top(s).w
  /\ LET f == Top(s) IN
     /\ f.me = {}                                     \* every event found signalled was notified or cleared
     /\ ~f.idle => \A i \in DOMAIN s.q : s.q[i].id \notin f.mi
     /\ IF f.must \/ f.idle \/ f.ce # {} THEN e.r = 0
        ELSE IF f.to < 0 THEN e.r = 0
        ELSE e.r = 0 \/ (e.r = ETIMEDOUT /\ f.now >= f.to)
     /\ s' = [Pop(s) EXCEPT !.wm = IF f.wp THEN s.wnext ELSE IF s.wnext = 2 THEN 2 ELSE @, !.wnext = 0, !.wd.dl = -1]
FlushB(e) == /\ e.op = "fb" /\ Calling
             /\ s' = Push(s, [k |-> "flush", ck |-> e.ck, mi |-> {s.q[i].id : i \in {j \in DOMAIN s.q : s.q[j].done}}])
FlushE(e) == /\ e.op = "fe" /\ Free /\ e.r = 0 /\ s.st # <<>> /\ Top(s).k = "flush"
             /\ \A i \in DOMAIN s.q : s.q[i].id \in Top(s).mi => (Top(s).ck # 0 /\ s.q[i].ck # Top(s).ck)
             /\ s' = Pop(s)
Cb(e) == /\ e.op = "cb" /\ e.th = 0 /\ s.pend.k = e.k
         /\ IF e.k = "i" THEN s.pend.cb = e.cb /\ s.pend.ud = e.ud
            ELSE s.pend.e = e.e /\ e.ud = 100 + e.e
         /\ s' = Push([s EXCEPT !.pend = NoPend], [k |-> "cb"])
CbEnd(e) == /\ e.op = "cbend" /\ Free /\ s.st # <<>> /\ Top(s).k = "cb" /\ s' = Pop(s)
TDone(e) == e.op = "tdone" /\ s.op[e.th].c = "none" /\ s' = [s EXCEPT !.done = @ \cup {e.th}]
AllDone == s.done = DOMAIN s.op \ {0}
Quiet(e) == e.op = "quiet" /\ AllDone /\ s.st = <<>> /\ s.q = <<>> /\ s.sig = {} /\ s.wm # 2 /\ s' = s
\* nothing can happen any more: only right if there is nothing to do
Deadlock(e) == /\ e.op = "deadlock" /\ AllDone /\ Free
               /\ s.st # <<>> /\ Top(s).k = "step" /\ ~Top(s).w /\ Top(s).to < 0
               /\ s.q = <<>> /\ s.sig = {} /\ s.wm # 2
               /\ s' = s
WdEn(e) == /\ e.op = "wden" /\ Calling /\ ~s.wd.call
           /\ s' = [s EXCEPT !.wd.call = TRUE, !.wd.oud = s.wd.ud,
                             !.wd = IF e.d > 0 THEN [@ EXCEPT !.en = TRUE, !.d = e.d, !.ud = e.ud] ELSE @]
WdDis(e) == /\ e.op = "wdis" /\ Calling /\ ~s.wd.call
            /\ s' = [s EXCEPT !.wd.call = TRUE, !.wd.oud = s.wd.ud, !.wd.en = FALSE]
WdRet(e) == /\ e.op = "wdr" /\ s.wd.call
            /\ e.r = (IF e.bad = 1 THEN EINVAL ELSE 0)
            /\ s' = [s EXCEPT !.wd.call = FALSE, !.wd.dl = IF s.wd.en THEN @ ELSE -1]
Wd(e) == /\ e.op = "wd" /\ e.ok = 1
         /\ WdMay(s, e.now)
         /\ e.ud \in (IF s.wd.call THEN {s.wd.ud, s.wd.oud} ELSE {s.wd.ud})
         /\ s' = [s EXCEPT !.wd.dl = -1]
Busy(e) == /\ e.op = "busy"
           /\ (e.fair = 1 => ~WdMust(s, e.now))
           /\ s' = s
End(e) == /\ e.op = "end" /\ e.r = 0 /\ e.nalloc = 0 /\ e.n = 0 /\ e.nsync = 0 /\ e.nthr = 0 /\ s.st = <<>> /\ s' = s
Fin(e) == e.op = "fin" /\ s' = s

Step(e) == \/ B(e) \/ E(e) \/ StepB(e) \/ W(e) \/ StepE(e) \/ FlushB(e) \/ FlushE(e) \/ Cb(e) \/ CbEnd(e) \/ TDone(e)
           \/ Quiet(e) \/ Deadlock(e) \/ WdEn(e) \/ WdDis(e) \/ WdRet(e) \/ Wd(e) \/ Busy(e) \/ End(e) \/ Fin(e)
Hidden == \/ \E t \in DOMAIN s.op : CanLin(s, t) /\ s' = Effect(s, t)
          \/ CanPop(s) /\ s' = PopIdle(s)
          \/ \E e \in s.evts : CanClear(s, e) /\ s' = ClearEvt(s, e)

Observed == /\ Step(Ev) /\ l' = l + 1
            /\ (IF l' > TLCGet(tid) THEN TLCSet(tid, l') ELSE TRUE)
Next == /\ l <= Len(Traces[tid].ev) /\ UNCHANGED tid
        /\ Observed \/ (Hidden /\ UNCHANGED l)

Spec == Init /\ [][Next]_vars

InitReg == \A t \in 1 .. NT : TLCSet(t, 1)
ASSUME InitReg
Rejected == {t \in 1 .. NT : TLCGet(t) # Len(Traces[t].ev) + 1}
Report == /\ PrintT(<<"TOTAL", NT, "REJECTED", Cardinality(Rejected)>>)
          /\ \A t \in Rejected : PrintT(<<"REJECT", t, TLCGet(t)>>)
=============================================================================
