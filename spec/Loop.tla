-------------------------------- MODULE Loop --------------------------------
(* Loops (registered descriptors, idle queue, wakeup), events and timers:     *)
(* state and what one processing step may and must do.                        *)
(*                                                                            *)
(* The environment gives, when a step starts waiting, the set of descriptors   *)
(* that are ready and for which events. A step is a frame on a stack: the      *)
(* callbacks it runs, and what these call, are nested in it.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Bitwise

EINVAL == -22
ENOENT == -2
EEXIST == -17
EBUSY == -16
EPERM == -1
ETIMEDOUT == -110

FErr == 8    \* event bits that need not be requested (see Bits)
FHup == 16
EH == 24

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == <<>>

\* impl: loop 0 epoll 1 poll, timer 0 timerfd 1 posix, event 0 eventfd 1 pipe
InitState == [L |-> Empty, E |-> Empty, T |-> Empty, now |-> 0, gen |-> 1, st |-> <<>>, li |-> 0, ti |-> 0, ei |-> 0]

NewLoop == [reg |-> Empty, idle |-> <<>>, destr |-> FALSE, wm |-> FALSE, wc |-> 0, imiss |-> 0]

Mask(w, req) == w & (req | EH)

EvtsOf(s, l) == {e \in DOMAIN s.E : s.E[e].l = l}
TimersOf(s, l) == {t \in DOMAIN s.T : s.T[t].l = l}

\* ---- stepping ------------------------------------------------------------
\* rd: descriptor -> ready events, when the wait ends
StepFrame(s, l, to, rd) ==
  LET L == s.L[l]
      fs == {f \in DOMAIN L.reg : f \in DOMAIN rd /\ Mask(rd[f], L.reg[f].req) # 0}
      es == {e \in EvtsOf(s, l) : s.E[e].sig}
      ts == {t \in TimersOf(s, l) : s.T[t].must}
      tm == {t \in TimersOf(s, l) : s.T[t].may > 0}
      id == ~L.destr /\ L.idle # <<>>
      n == Cardinality(fs) + Cardinality(es) + Cardinality(tm) + (IF id THEN 1 ELSE 0)
             + (IF L.wc > 0 THEN 1 ELSE 0) IN
  [k |-> "step", l |-> l, to |-> to,
   f |-> [x \in fs |-> [gen |-> L.reg[x].gen, w |-> Mask(rd[x], L.reg[x].req)]],
   e |-> [x \in es |-> s.E[x].gen], t |-> [x \in ts |-> s.T[x].gen], tm |-> [x \in tm |-> s.T[x].gen],
   \* idle: 0 none pending, 1 one to run, 2 run
   id |-> IF id THEN 1 ELSE 0, icont |-> TRUE,
   fc |-> {}, ec |-> {}, tc |-> {},
   \* events cleared and timers set since: what makes them ready again may be seen by the next step only
   xe |-> {}, xt |-> {},
   wm |-> L.wm, wc |-> L.wc, n |-> n,
   \* what is ready for sure
   ns |-> Cardinality(fs) + Cardinality(es) + Cardinality(ts) + (IF id THEN 1 ELSE 0) + (IF L.wm THEN 1 ELSE 0)]

Top(s) == s.st[Len(s.st)]
InStep(s) == s.st # <<>> /\ Top(s).k = "step"
SetTop(s, fr) == [s EXCEPT !.st[Len(s.st)] = fr]
Push(s, fr) == [s EXCEPT !.st = Append(@, fr)]
Pop(s) == [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
CbFrame == [k |-> "cb"]

\* at most 16 ready sources are reported by one wait of the epoll loop
Batch == 16
All(s, fr) == s.li = 1 \/ fr.n <= Batch
MaxMiss == 6

\* a descriptor callback is due: ready when the wait ended, registered since then, and still
\* asking for an event that was ready
DueF(s, fr, f) ==
  /\ f \in DOMAIN fr.f /\ f \notin fr.fc
  /\ f \in DOMAIN s.L[fr.l].reg
  /\ s.L[fr.l].reg[f].gen = fr.f[f].gen
  /\ Mask(fr.f[f].w, s.L[fr.l].reg[f].req) # 0
DueE(s, fr, e) == /\ e \in DOMAIN fr.e /\ e \notin fr.ec /\ e \in DOMAIN s.E
                  /\ s.E[e].gen = fr.e[e] /\ s.E[e].l = fr.l /\ s.E[e].sig
DueT(s, fr, t) == /\ t \in DOMAIN fr.t /\ t \notin fr.tc /\ t \in DOMAIN s.T
                  /\ s.T[t].gen = fr.t[t] /\ s.T[t].must
MayT(s, fr, t) == /\ t \in DOMAIN fr.tm /\ t \notin fr.tc /\ t \in DOMAIN s.T
                  /\ s.T[t].gen = fr.tm[t] /\ s.T[t].may > 0

CallF(s, f) == LET fr == Top(s) IN
  Push([SetTop(s, [fr EXCEPT !.fc = @ \cup {f}]) EXCEPT !.L[fr.l].reg[f].miss = 0], CbFrame)
CallE(s, e) == LET fr == Top(s) IN
  Push([SetTop(s, [fr EXCEPT !.ec = @ \cup {e}]) EXCEPT !.E[e].sig = FALSE, !.E[e].miss = 0], CbFrame)
CallT(s, t) == LET fr == Top(s) IN
  Push([SetTop(s, [fr EXCEPT !.tc = @ \cup {t}]) EXCEPT
          !.T[t].must = FALSE, !.T[t].miss = 0,
          !.T[t].may = IF s.T[t].impl = 0 THEN 0 ELSE @ - 1], CbFrame)

\* the queue of loop l becomes q
IdleSet(s, l, q) ==
  [s EXCEPT !.L[l].idle = q,
            !.st = TLCEval([i \in DOMAIN @ |-> IF @[i].k = "step" /\ @[i].l = l /\ q = <<>>
                                               THEN [@[i] EXCEPT !.icont = FALSE] ELSE @[i]])]

ClearedE(s, e) == [s EXCEPT !.st = TLCEval([i \in DOMAIN @ |-> IF @[i].k = "step" THEN [@[i] EXCEPT !.xe = @ \cup {e}] ELSE @[i]])]
ClearedT(s, t) == [s EXCEPT !.st = TLCEval([i \in DOMAIN @ |-> IF @[i].k = "step" THEN [@[i] EXCEPT !.xt = @ \cup {t}] ELSE @[i]])]

Tail1(q) == SubSeq(q, 2, Len(q))
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* first entry a flush with cookie ck (0: all) still has to run
FirstOf(q, ck) == IF ck = 0 THEN (IF q = <<>> THEN 0 ELSE 1)
                  ELSE IF \E i \in DOMAIN q : q[i].ck = ck
                       THEN CHOOSE i \in DOMAIN q : q[i].ck = ck /\ \A j \in 1 .. i - 1 : q[j].ck # ck
                       ELSE 0

\* end of the step of frame fr, state s without it; r: result
EndStep(s0, r) ==
  LET fr == Top(s0)
      s == Pop(s0)
      L == s.L[fr.l]
      df == {f \in DOMAIN fr.f : DueF(s0, fr, f)}
      de == {e \in DOMAIN fr.e \ fr.xe : DueE(s0, fr, e)}
      dt == {t \in DOMAIN fr.t \ fr.xt : DueT(s0, fr, t)}
      di == fr.id = 1 /\ fr.icont IN
  [ok |-> /\ IF fr.ns > 0 \/ fr.to = -1 THEN r = 0
             ELSE IF fr.n > 0 THEN r \in {0, ETIMEDOUT}
             ELSE r = ETIMEDOUT
          /\ IF All(s, fr) THEN df = {} /\ de = {} /\ dt = {} /\ ~di
             ELSE /\ \A f \in df : L.reg[f].miss < MaxMiss
                  /\ \A e \in de : s.E[e].miss < MaxMiss
                  /\ \A t \in dt : s.T[t].miss < MaxMiss
                  /\ (di => L.imiss < MaxMiss),
   \* a wakeup made before the wait is consumed, possibly with others; one made during the step,
   \* when none was pending, is still to come
   s |-> LET w == IF fr.wc = 0 THEN [wm |-> L.wc > 0, wc |-> L.wc]
                  ELSE IF ~All(s, fr) THEN [wm |-> FALSE, wc |-> L.wc]
                  ELSE IF r = 0 THEN [wm |-> FALSE, wc |-> L.wc - 1]
                  ELSE [wm |-> FALSE, wc |-> 0] IN
         [s EXCEPT
           !.L[fr.l].wm = w.wm, !.L[fr.l].wc = w.wc,
           !.L[fr.l].imiss = IF di THEN @ + 1 ELSE 0,
           !.L[fr.l].reg = TLCEval([f \in DOMAIN @ |-> IF f \in df THEN [@[f] EXCEPT !.miss = @ + 1] ELSE @[f]]),
           !.E = TLCEval([e \in DOMAIN @ |-> IF e \in de THEN [@[e] EXCEPT !.miss = @ + 1] ELSE @[e]]),
           !.T = TLCEval([t \in DOMAIN @ |-> IF t \in dt THEN [@[t] EXCEPT !.miss = @ + 1] ELSE @[t]])]]

\* ---- timers --------------------------------------------------------------
TimerSet(t, now, d, p) == [t EXCEPT !.must = FALSE, !.may = 0, !.exp = IF d = 0 THEN -1 ELSE now + d, !.per = p]
\* expirations of t up to time n
Expired(t, n) == IF t.exp < 0 \/ t.exp > n THEN 0
                 ELSE IF t.per = 0 THEN 1 ELSE ((n - t.exp) \div t.per) + 1
TimerAdv(t, n) ==
  LET k == Expired(t, n) IN
  IF k = 0 THEN t
  ELSE [t EXCEPT !.must = TRUE, !.may = @ + k,
                 !.exp = IF t.per = 0 THEN -1 ELSE t.exp + k * t.per]
=============================================================================
