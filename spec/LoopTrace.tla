----------------------------- MODULE LoopTrace ------------------------------
(* Validation of traces of the loop driver against Loop.                      *)
EXTENDS Loop, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)

VARIABLES tid, l, s
vars == <<tid, l, s>>

Ev == Traces[tid].ev[l]
Has(e, f) == f \in DOMAIN e
Init == tid \in 1 .. NT /\ l = 1 /\ s = InitState

\* the call failed because of an injected failure: nothing changed
Faulted(e) == Has(e, "flt") /\ e.flt > 0 /\ e.r < 0
Rd(e) == TLCEval([f \in {e.rd[i][1] : i \in DOMAIN e.rd} |->
            (CHOOSE i \in DOMAIN e.rd : e.rd[i][1] = f) ] )
RdF(e) == LET ix == Rd(e) IN TLCEval([f \in DOMAIN ix |-> e.rd[ix[f]][2]])

\* result r0, and the new state if it is 0
Out(e, r0, t) == IF Faulted(e) THEN s' = s
                 ELSE /\ e.r = r0 /\ s' = IF r0 = 0 THEN t ELSE s

\* calls are made outside steps, or in a callback
Calling == IF s.st = <<>> THEN TRUE ELSE Top(s).k = "cb"

Impl(e) == e.op = "impl" /\ s' = [s EXCEPT !.li = e.li, !.ti = e.ti, !.ei = e.ei]
LNew(e) == e.op = "lnew" /\ Out(e, 0, [s EXCEPT !.L = Put(@, e.l, NewLoop)])
LDel(e) ==
  /\ e.op = "ldel"
  /\ LET busy == DOMAIN s.L[e.l].reg # {} \/ s.L[e.l].idle # <<>> \/ EvtsOf(s, e.l) # {} \/ TimersOf(s, e.l) # {} IN
     IF busy THEN e.r = EBUSY /\ s' = [s EXCEPT !.L[e.l].destr = TRUE]
     ELSE e.r = 0 /\ s' = [s EXCEPT !.L = Del(@, e.l)]
LAdd(e) ==
  /\ e.op = "ladd"
  /\ LET bad == e.f < 0 \/ e.ev = 0 \/ e.ud < 0 IN
     IF bad THEN e.r = EINVAL /\ s' = s
     ELSE IF e.f \in DOMAIN s.L[e.l].reg THEN e.r = EEXIST /\ s' = s
     \* epoll refuses regular files
     ELSE IF e.kind = 2 /\ s.li = 0 THEN e.r < 0 /\ s' = s
     ELSE Out(e, 0, [s EXCEPT !.gen = @ + 1, !.L[e.l].reg =
                       Put(@, e.f, [req |-> e.ev, ud |-> e.ud, gen |-> s.gen, miss |-> 0])])
Known(e) == e.f \in DOMAIN s.L[e.l].reg
LUpd(e) ==
  /\ e.op = "lupd"
  /\ IF e.f < 0 THEN e.r = EINVAL /\ s' = s
     ELSE IF ~Known(e) THEN e.r = ENOENT /\ s' = s
     ELSE Out(e, 0, [s EXCEPT !.L[e.l].reg[e.f].req = e.ev])
LUp2(e) ==
  /\ e.op = "lup2"
  /\ IF e.f < 0 THEN e.r = EINVAL /\ s' = s
     ELSE IF ~Known(e) THEN e.r = ENOENT /\ s' = s
     ELSE Out(e, 0, [s EXCEPT !.L[e.l].reg[e.f].req = ((@ | e.add) & (31 - (e.rem & 31)))])
LRem(e) ==
  /\ e.op = "lrem"
  /\ IF e.f < 0 THEN e.r = EINVAL /\ s' = s
     ELSE IF ~Known(e) THEN e.r = ENOENT /\ s' = s
     ELSE Out(e, 0, [s EXCEPT !.L[e.l].reg = Del(@, e.f)])
LHas(e) == e.op = "lhas" /\ e.r = (IF Known(e) THEN 1 ELSE 0) /\ s' = s
Wake(e) == e.op = "wake" /\ Out(e, 0, [s EXCEPT !.L[e.l].wc = @ + 1,
                                         \* one made during a step: see EndStep
                                         !.L[e.l].wm = IF \E i \in DOMAIN s.st : s.st[i].k = "step" /\ s.st[i].l = e.l THEN @ ELSE TRUE])
\* the descriptor of the loop is readable when there is something to do
LFd(e) ==
  /\ e.op = "lfd"
  /\ LET fr == StepFrame(s, e.l, 0, RdF(e)) IN
     IF s.li = 1 THEN e.neg = 1
     ELSE /\ e.neg = 0
          /\ IF fr.ns > 0 THEN e.in = 1 ELSE IF fr.n = 0 THEN e.in = 0 ELSE TRUE
  /\ s' = s

StepB(e) == e.op = "step" /\ Calling /\ s' = Push(s, StepFrame(s, e.l, e.to, RdF(e)))
StepE(e) ==
  /\ e.op = "stepend" /\ InStep(s) /\ Top(s).l = e.l
  \* never waits longer than asked
  /\ (e.wt # -77 => IF Top(s).to < 0 THEN TRUE ELSE e.wt \in 0 .. Top(s).to)
  /\ LET o == EndStep(s, e.r) IN o.ok /\ s' = o.s
FlushB(e) == e.op = "flush" /\ Calling /\ s' = Push(s, [k |-> "flush", l |-> e.l, ck |-> e.ck])
FlushE(e) == /\ e.op = "flushend" /\ s.st # <<>> /\ Top(s).k = "flush" /\ Top(s).l = e.l /\ e.r = 0
             /\ FirstOf(s.L[e.l].idle, Top(s).ck) = 0
             /\ s' = Pop(s)
Cb(e) ==
  /\ e.op = "cb" /\ s.st # <<>>
  /\ LET fr == Top(s) IN
     CASE e.k = "f" -> /\ fr.k = "step" /\ DueF(s, fr, e.f)
                       /\ LET g == s.L[fr.l].reg[e.f] IN e.ud = g.ud /\ e.rev = Mask(fr.f[e.f].w, g.req)
                       /\ s' = CallF(s, e.f)
       [] e.k = "e" -> fr.k = "step" /\ DueE(s, fr, e.e) /\ e.ud = s.E[e.e].ud /\ s' = CallE(s, e.e)
       [] e.k = "t" -> fr.k = "step" /\ MayT(s, fr, e.t) /\ e.ud = s.T[e.t].ud /\ s' = CallT(s, e.t)
       [] e.k = "i" -> IF fr.k = "flush"
                       THEN LET q == s.L[fr.l].idle
                                i == FirstOf(q, fr.ck) IN
                            /\ i # 0 /\ q[i].cb = e.cb /\ q[i].ud = e.ud
                            /\ s' = Push(IdleSet(s, fr.l, Drop(q, i)), CbFrame)
                       ELSE /\ fr.k = "step" /\ fr.id = 1
                            /\ LET q == s.L[fr.l].idle IN
                               /\ q # <<>> /\ q[1].cb = e.cb /\ q[1].ud = e.ud
                               /\ s' = Push(IdleSet(SetTop(s, [fr EXCEPT !.id = 2]), fr.l, Tail1(q)), CbFrame)
       [] OTHER -> FALSE
CbEnd(e) == e.op = "cbend" /\ s.st # <<>> /\ Top(s).k = "cb" /\ s' = Pop(s)

IAdd(e) ==
  /\ e.op = "iadd"
  /\ IF s.L[e.l].destr THEN e.r = EPERM /\ s' = s
     ELSE Out(e, 0, IdleSet(s, e.l, Append(s.L[e.l].idle, [cb |-> e.cb, ud |-> e.ud, ck |-> e.ck])))
IRem(e) == e.op = "irem" /\ e.r = 0 /\ LET keep(x) == ~(x.cb = e.cb /\ x.ud = e.ud) IN
             s' = IdleSet(s, e.l, SelectSeq(s.L[e.l].idle, keep))
IRemC(e) == e.op = "iremc" /\ IF e.ck = 0 THEN e.r = EINVAL /\ s' = s
            ELSE e.r = 0 /\ LET keep(x) == x.ck # e.ck IN s' = IdleSet(s, e.l, SelectSeq(s.L[e.l].idle, keep))

ENew(e) == e.op = "enew" /\ Out(e, 0, [s EXCEPT !.E = Put(@, e.e, [l |-> -1, ud |-> 0, sig |-> FALSE, gen |-> 0, miss |-> 0])])
EDel(e) == /\ e.op = "edel"
           /\ IF s.E[e.e].l # -1 THEN e.r = EBUSY /\ s' = s
              ELSE e.r = 0 /\ s' = [s EXCEPT !.E = Del(@, e.e)]
EAtt(e) == /\ e.op = "eatt"
           /\ IF s.E[e.e].l # -1 THEN e.r = EEXIST /\ s' = s
              ELSE Out(e, 0, [s EXCEPT !.gen = @ + 1, !.E[e.e].l = e.l, !.E[e.e].ud = e.ud, !.E[e.e].gen = s.gen])
EDet(e) == /\ e.op = "edet"
           /\ IF s.E[e.e].l = -1 THEN e.r = ENOENT /\ s' = s
              ELSE IF s.E[e.e].l # e.l THEN e.r = EINVAL /\ s' = s
              ELSE e.r = 0 /\ s' = [s EXCEPT !.E[e.e].l = -1]
EIs(e) == /\ e.op = "eis"
          /\ (e.r # 0) = (IF e.l < 0 THEN s.E[e.e].l # -1 ELSE s.E[e.e].l = e.l) /\ s' = s
ESig(e) == e.op = "esig" /\ e.r = 0 /\ s' = [s EXCEPT !.E[e.e].sig = TRUE]
EClr(e) == e.op = "eclr" /\ e.r = 0 /\ s' = ClearedE([s EXCEPT !.E[e.e].sig = FALSE], e.e)

TNew(e) == e.op = "tnew" /\ Out(e, 0, [s EXCEPT !.gen = @ + 1, !.T = Put(@, e.t,
             [l |-> e.l, ud |-> e.ud, impl |-> e.impl, gen |-> s.gen, must |-> FALSE, may |-> 0, exp |-> -1, per |-> 0, miss |-> 0])])
TDel(e) == e.op = "tdel" /\ e.r = 0 /\ s' = [s EXCEPT !.T = Del(@, e.t)]
TSet(e) == e.op = "tset" /\ Out(e, 0, ClearedT([s EXCEPT !.T[e.t] = TimerSet(@, s.now, e.d, e.p)], e.t))
Adv(e) == /\ e.op = "adv"
          /\ s' = [s EXCEPT !.now = @ + e.ms, !.T = TLCEval([t \in DOMAIN @ |-> TimerAdv(@[t], s.now + e.ms)])]

End(e) == /\ e.op = "end" /\ e.nalloc = 0 /\ e.n = 0 /\ e.nsync = 0 /\ e.ntimers = 0 /\ s.st = <<>> /\ s' = s
Fin(e) == e.op = "fin" /\ s' = s

Step(e) ==
  \/ Impl(e) \/ StepE(e) \/ FlushE(e) \/ Cb(e) \/ CbEnd(e) \/ End(e) \/ Fin(e)
  \/ /\ Calling
     /\ \/ LNew(e) \/ LDel(e) \/ LAdd(e) \/ LUpd(e) \/ LUp2(e) \/ LRem(e) \/ LHas(e) \/ LFd(e) \/ Wake(e)
        \/ StepB(e) \/ FlushB(e) \/ IAdd(e) \/ IRem(e) \/ IRemC(e)
        \/ ENew(e) \/ EDel(e) \/ EAtt(e) \/ EDet(e) \/ EIs(e) \/ ESig(e) \/ EClr(e)
        \/ TNew(e) \/ TDel(e) \/ TSet(e) \/ Adv(e)

Next == /\ l <= Len(Traces[tid].ev)
        /\ Step(Ev)
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ TLCSet(tid, l')

Spec == Init /\ [][Next]_vars

InitReg == \A t \in 1 .. NT : TLCSet(t, 1)
ASSUME InitReg
Rejected == {t \in 1 .. NT : TLCGet(t) # Len(Traces[t].ev) + 1}
Report == /\ PrintT(<<"TOTAL", NT, "REJECTED", Cardinality(Rejected)>>)
          /\ \A t \in Rejected : PrintT(<<"REJECT", t, TLCGet(t)>>)
=============================================================================
