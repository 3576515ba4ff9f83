----------------------------- MODULE CodecTrace -----------------------------
(* Validation of traces of the codec driver against Codec/Wire/StreamDecoder. *)
EXTENDS Codec, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)

RealSize(h) == LET n == LE32ToNat(SubSeq(h, 9, 12)) IN n
SD == INSTANCE StreamDecoder WITH Mg <- Magic, Hdr <- HeaderSize, SizeOf <- RealSize, Big <- 16777216

VARIABLES tid, l, s
vars == <<tid, l, s>>

Ev == Traces[tid].ev[l]
Has(e, f) == f \in DOMAIN e

Init == tid \in 1 .. NT /\ l = 1 /\ s = InitState

\* ---- helpers -----------------------------------------------------------
HeapOfB(e) == s.B[e.b]
ObjB(e) == s.heap[s.B[e.b]]
Faulted(e) == Has(e, "flt") /\ e.flt > 0 /\ e.r < 0

\* observed object of a message: msgs with no buffer show onull
MsgFits(st, m, e) ==
  /\ e.mid = st.M[m].mid
  /\ IF st.M[m].buf = 0 THEN Has(e, "onull") ELSE Fits(st.heap[st.M[m].buf], e)
MsgSeen(st, m, e) ==
  IF st.M[m].buf = 0 \/ ~Has(e, "olen") THEN st
  ELSE [st EXCEPT !.heap[st.M[m].buf] = Seen(@, e)]
\* after an operation whose effect on the content of m is unspecified
\* (an injected failure in the middle): take what is observed, nothing before
\* offset p having changed
\* content of an object of previous content d, as observed
ObsData(d, e) == [i \in 1 .. e.olen |-> IF i > e.ooff THEN e.odata[i - e.ooff]
                                        ELSE IF i <= Len(d) THEN d[i] ELSE -1]
MsgResync(st, m, e, p) ==
  IF st.M[m].buf = 0 THEN st
  ELSE [st EXCEPT !.heap[st.M[m].buf].data = ObsData(@, e), !.heap[st.M[m].buf].cap = e.ocap]

NoMid == <<0, 0, 0, 0>>
NewObj(data, fds) == [ref |-> 1, cap |-> -1, data |-> data, fds |-> fds]

SetB(st, b, o) == [st EXCEPT !.heap[st.B[b]] = o]

\* outcome of an operation on buffer b: refused with r0, or success giving o
OnBuf(e, r0, o) ==
  IF r0 # 0 \/ Faulted(e)
  THEN /\ (IF Faulted(e) THEN e.r < 0 ELSE e.r = r0)
       /\ Fits(ObjB(e), e) /\ s' = SetB(s, e.b, Seen(ObjB(e), e))
  ELSE /\ e.r = 0 /\ Fits(o, e) /\ s' = SetB(s, e.b, Seen(o, e))

Shared(o) == o.ref > 1

\* ---- buffers -----------------------------------------------------------
NewBuf(e, o) ==
  IF Faulted(e) THEN s' = s
  ELSE /\ e.r = 0 /\ Fits(o, e)
       /\ s' = [NewHeap(s, Seen(o, e)) EXCEPT !.B = Put(@, e.b, s.nxt)]

BNew(e) == /\ e.op \in {"bnew", "bnewg"}
           /\ NewBuf(e, [ref |-> 1, cap |-> -1, data |-> <<>>, fds |-> <<>>])
           /\ (e.r = 0 => e.ocap >= e.n)
BNewD(e) == e.op = "bnewd" /\ NewBuf(e, NewObj(e.v, <<>>))
BCopy(e) == e.op = "bcopy" /\ LET o == s.heap[s.B[e.s]] IN NewBuf(e, NewObj(Blur(o.data, o.fds), o.fds))
BRef(e) == e.op = "bref" /\ s' = Ref(s, s.B[e.b])
BUnref(e) == e.op = "bunref" /\ s' = Unref(s, s.B[e.b])
BSh(e) == e.op = "bsh" /\ (e.r # 0) = Shared(ObjB(e)) /\ s' = s
\* references are taken and released by any thread: none is lost, none is counted twice
BRace(e) == e.op = "brace" /\ e.k = e.n /\ (e.r # 0) = Shared(ObjB(e)) /\ s' = s
BSetLen(e) ==
  /\ e.op = "bsetlen"
  /\ LET o == ObjB(e)
         keep(f) == f.off + 4 <= e.n
         r0 == IF Shared(o) THEN EPERM ELSE IF e.n > o.cap THEN EINVAL ELSE 0 IN
     \* both errors apply: either code
     IF Shared(o) /\ e.n > o.cap THEN OnBuf(e, e.r, o) /\ e.r \in {EPERM, EINVAL}
     ELSE OnBuf(e, r0, [o EXCEPT
            !.data = IF e.n <= Len(@) THEN SubSeq(@, 1, e.n) ELSE @ \o Unknown(e.n - Len(@)),
            !.fds = SelectSeq(@, keep)])
BSetCap(e) ==
  /\ e.op = "bsetcap"
  /\ LET o == ObjB(e)
         bad == e.n < Len(o.data) IN
     IF Shared(o) /\ bad THEN OnBuf(e, e.r, o) /\ e.r \in {EPERM, EINVAL}
     ELSE OnBuf(e, IF Shared(o) THEN EPERM ELSE IF bad THEN EINVAL ELSE 0, [o EXCEPT !.cap = e.n])
BEns(e) ==
  /\ e.op = "benscap"
  /\ LET o == ObjB(e) IN
     /\ OnBuf(e, IF Shared(o) THEN EPERM ELSE 0, [o EXCEPT !.cap = NewCap(o, e.n)])
     /\ (e.r = 0 => e.ocap >= e.n)
BApp(e) ==
  /\ e.op = "bapp"
  /\ LET o == ObjB(e) IN OnBuf(e, IF Shared(o) THEN EPERM ELSE 0, Write(o, Len(o.data), e.v))
BAppB(e) ==
  /\ e.op = "bappb"
  /\ LET o == ObjB(e)
         src == s.heap[s.B[e.s]] IN
     IF src.data = <<>> THEN OnBuf(e, e.r, o) /\ e.r \in {0} \cup (IF Shared(o) THEN {EPERM} ELSE {})
     ELSE OnBuf(e, IF Shared(o) THEN EPERM ELSE 0, Write(o, Len(o.data), src.data))
BWr(e) ==
  /\ e.op = "bwr"
  /\ LET o == ObjB(e) IN
     /\ OnBuf(e, IF Shared(o) THEN EPERM ELSE 0, Write(o, e.p, e.v))
     /\ e.np = IF e.r = 0 THEN e.p + Len(e.v) ELSE e.p
BRd(e) ==
  /\ e.op \in {"brd", "bcrd"}
  /\ LET d == ObjB(e).data IN
     IF e.p + e.n <= Len(d)
     THEN /\ e.r = 0 /\ e.np = e.p + e.n
          /\ LET x == SubSeq(d, e.p + 1, e.p + e.n) IN Len(x) = Len(e.v) /\ Known(x, e.v)
     ELSE e.r = EINVAL /\ e.np = e.p
  /\ s' = s
\* positions or lengths beyond anything a buffer can hold
BHuge(e) ==
  \/ e.op = "brdhuge" /\ e.r < 0 /\ s' = s
  \/ e.op \in {"bwrhuge", "benshuge", "bens4g"} /\ e.r < 0 /\ Fits(ObjB(e), e) /\ s' = s
BGd(e) ==
  /\ e.op = "bgd"
  /\ IF Shared(ObjB(e)) THEN e.r = EPERM
     ELSE e.r = 0 /\ e.glen = Len(ObjB(e).data) /\ (ObjB(e).cap >= 0 => e.gcap = ObjB(e).cap)
  /\ s' = s
BPoke(e) ==
  /\ e.op = "bpoke"
  /\ LET o == ObjB(e) IN OnBuf(e, IF Shared(o) THEN EPERM ELSE 0,
        [o EXCEPT !.data = [i \in 1 .. Len(@) |-> IF i > e.p /\ i <= e.p + Len(e.v) THEN e.v[i - e.p] ELSE @[i]]])
BObs(e) == /\ e.op \in {"bobs", "bfull"}
           /\ Fits(ObjB(e), e) /\ s' = SetB(s, e.b, Seen(ObjB(e), e))

\* ---- files -------------------------------------------------------------
FOp(e) ==
  \/ e.op = "fopen" /\ s' = [s EXCEPT !.F = @ \cup {e.f}]
  \/ e.op = "fclose" /\ s' = [s EXCEPT !.F = @ \ {e.f}]
  \/ e.op = "fcheck" /\ (IF e.f \in s.F THEN e.tag = e.f ELSE TRUE) /\ s' = s
  \/ e.op = "nfds" /\ e.n = Cardinality(s.F) + OwnedFds(s) /\ s' = s

\* ---- messages ----------------------------------------------------------
MNew(e) == /\ e.op = "mnew"
           /\ IF Faulted(e) THEN s' = s
              ELSE e.r = 0 /\ s' = [s EXCEPT !.M = Put(@, e.m, [buf |-> 0, fin |-> FALSE, mid |-> NoMid])]
MCopy(e) ==
  /\ e.op = "mcopy"
  /\ IF Faulted(e) THEN s' = s
     ELSE /\ e.r = 0
          /\ LET src == s.M[e.s] IN
             IF src.buf = 0
             THEN /\ s' = [s EXCEPT !.M = Put(@, e.m, src)]
                  /\ Has(e, "onull") /\ e.mid = src.mid
             ELSE LET o == s.heap[src.buf]
                      t == [NewHeap(s, NewObj(Blur(o.data, o.fds), o.fds)) EXCEPT
                              !.M = Put(@, e.m, [src EXCEPT !.buf = s.nxt])] IN
                  MsgFits(t, e.m, e) /\ s' = MsgSeen(t, e.m, e)
MFrom(e) ==
  /\ e.op = "mfrom"
  /\ LET h == s.B[e.b]
         d == s.heap[h].data
         valid == /\ Len(d) >= HeaderSize
                  /\ SubSeq(d, 1, 4) = Magic
                  /\ LE32ToNat(SubSeq(d, 9, 12)) = Len(d) IN
     IF Has(e, "flt") /\ e.flt > 0 /\ e.ok = 0 THEN s' = s
     ELSE IF valid
     THEN /\ e.ok = 1
          /\ LET t == [Ref(s, h) EXCEPT !.M = Put(@, e.m, [buf |-> h, fin |-> TRUE, mid |-> SubSeq(d, 5, 8)])] IN
             MsgFits(t, e.m, e) /\ s' = t
     ELSE e.ok = 0 /\ s' = s
DropBuf(st, m) == IF st.M[m].buf = 0 THEN st ELSE Unref(st, st.M[m].buf)
MDel(e) == e.op = "mdel" /\ e.r = 0 /\ s' = [DropBuf(s, e.m) EXCEPT !.M = Del(@, e.m)]
MClr(e) == /\ e.op = "mclr" /\ e.r = 0
           /\ LET t == [DropBuf(s, e.m) EXCEPT !.M[e.m] = [buf |-> 0, fin |-> FALSE, mid |-> NoMid]] IN
              MsgFits(t, e.m, e) /\ s' = t
InitMsg(st, m, mid) == [NewHeap(st, NewObj(<<>>, <<>>)) EXCEPT !.M[m] = [buf |-> st.nxt, fin |-> FALSE, mid |-> mid]]
\* result of a message call that failed because of an injected failure: the
\* message is left uninitialised, or initialised and not finished
MsgFaultState(e, fds) ==
  IF Has(e, "onull")
  THEN s' = [DropBuf(s, e.m) EXCEPT !.M[e.m] = [buf |-> 0, fin |-> FALSE, mid |-> e.mid]]
  ELSE \* descriptors: those of the arguments written before the failure
       \E k \in 0 .. Len(fds) :
       s' = [NewHeap(DropBuf(s, e.m), [NewObj(ObsData(<<>>, e), SubSeq(fds, 1, k)) EXCEPT !.cap = e.ocap])
                EXCEPT !.M[e.m] = [buf |-> s.nxt, fin |-> FALSE, mid |-> e.mid]]
MInit(e) ==
  /\ e.op = "minit"
  /\ IF s.M[e.m].buf # 0 THEN e.r = EPERM /\ MsgFits(s, e.m, e) /\ s' = s
     ELSE IF Faulted(e) THEN MsgFaultState(e, <<>>)
     ELSE e.r = 0 /\ LET t == InitMsg(s, e.m, e.id) IN MsgFits(t, e.m, e) /\ s' = MsgSeen(t, e.m, e)
Finished(st, m) ==
  LET h == st.M[m].buf
      d == st.heap[h].data
      n == Max2(Len(d), HeaderSize) IN
  [st EXCEPT !.heap[h] = Write(@, 0, Header(st.M[m].mid, n)), !.M[m].fin = TRUE]
MFin(e) ==
  /\ e.op = "mfin"
  /\ LET m == s.M[e.m] IN
     IF m.buf = 0 \/ m.fin THEN e.r = EINVAL /\ MsgFits(s, e.m, e) /\ s' = s
     ELSE IF Shared(s.heap[m.buf]) THEN e.r = EPERM /\ MsgFits(s, e.m, e) /\ s' = s
     ELSE IF Faulted(e) THEN MsgFits(s, e.m, e) /\ s' = MsgSeen(s, e.m, e)
     ELSE e.r = 0 /\ LET t == Finished(s, e.m) IN MsgFits(t, e.m, e) /\ s' = MsgSeen(t, e.m, e)
MObs(e) == e.op = "mobs" /\ MsgFits(s, e.m, e) /\ s' = MsgSeen(s, e.m, e)
MBuf(e) ==
  /\ e.op = "mbuf"
  /\ IF s.M[e.m].buf = 0 THEN e.ok = 0 /\ s' = s
     ELSE e.ok = 1 /\ s' = [Ref(s, s.M[e.m].buf) EXCEPT !.B = Put(@, e.b, s.M[e.m].buf)]

\* ---- typed and formatted encoding ---------------------------------------
(* Write one argument at pos in the message m of state st.
   a: [k |-> "v", v |-> bytes] or [k |-> "n"] (null) or [k |-> "f", v |-> tag] 
   result: [st, pos, r] *)
WriteArg(st, m, pos, t, a) ==
  LET h == st.M[m].buf IN
  IF t = FD THEN
    IF h = 0 THEN [st |-> st, pos |-> pos, r |-> AnyErr, bad |-> FALSE]
    ELSE IF Shared(st.heap[h]) THEN [st |-> st, pos |-> pos, r |-> EPERM, bad |-> FALSE]
    ELSE IF a.v \in st.F /\ Len(st.heap[h].fds) < MaxFds
    THEN [st |-> [st EXCEPT !.heap[h] = [Write(@, pos, <<FD, -1, -1, -1, -1>>)
                     EXCEPT !.fds = Append(@, [off |-> pos + 1, tag |-> a.v])]],
          pos |-> pos + 5, r |-> 0, bad |-> FALSE]
    ELSE [st |-> st, pos |-> pos, r |-> AnyErr, bad |-> TRUE]
  ELSE IF a.k = "n" \/ ~EncodableArg(t, a.v) \/ h = 0
  THEN [st |-> st, pos |-> pos, r |-> AnyErr, bad |-> FALSE]
  ELSE IF Shared(st.heap[h]) THEN [st |-> st, pos |-> pos, r |-> EPERM, bad |-> FALSE]
  ELSE LET b == TLCEval(EncArg(t, a.v)) IN
       [st |-> [st EXCEPT !.heap[h] = Write(@, pos, b)], pos |-> pos + Len(b), r |-> 0, bad |-> FALSE]

RcOk(r, want) == IF want = AnyErr THEN r < 0 ELSE r = want

\* value bytes of a formatted argument for type t
Trunc(v, n) == SubSeq(v, 1, n)
FmtVal(t, a) ==
  CASE t = F32 -> [k |-> "v", v |-> a.w]
    [] t = F64 -> [k |-> "v", v |-> a.v]
    [] t \in {STR, BUF, FD} -> a
    [] OTHER -> [k |-> "v", v |-> Trunc(a.v, Width(t))]
\* number of C arguments used
NArgs(t) == IF t = BUF THEN 2 ELSE 1
(* size argument following a buffer: the first n bytes are written *)
BufVal(a, n) == LET k == LE32ToNat(Trunc(n.v, 4)) IN
                IF a.k = "n" \/ k < 0 \/ k > Len(a.v) THEN [k |-> "n", v |-> <<>>]
                ELSE [k |-> "v", v |-> SubSeq(a.v, 1, k)]

RECURSIVE WriteFmt(_, _, _, _, _, _, _)
WriteFmt(st, m, pos, ts, i, args, j) ==
  IF i > Len(ts) THEN [st |-> st, pos |-> pos, r |-> 0, bad |-> FALSE]
  ELSE IF ts[i] = 0 THEN [st |-> st, pos |-> pos, r |-> EINVAL, bad |-> FALSE]
  ELSE LET t == ts[i] IN
    \* a missing argument is detected only with textual arguments (argv)
    IF j + NArgs(t) - 1 > Len(args) \/ (\E q \in j .. j + NArgs(t) - 1 : args[q].k = "n")
    THEN [st |-> st, pos |-> pos, r |-> AnyErr, bad |-> FALSE]
    ELSE LET a == TLCEval(IF t = BUF THEN BufVal(args[j], args[j + 1]) ELSE FmtVal(t, args[j]))
             w == TLCEval(WriteArg(st, m, pos, t, a)) IN
         IF w.r # 0 THEN w ELSE WriteFmt(w.st, m, w.pos, ts, i + 1, args, j + NArgs(t))

FmtOf(e, reading) == TLCEval(IF Has(e, "nofmt") THEN <<>> ELSE Format(e.fmt, reading))

\* encoder state checks common to all writes: 0 if the write can proceed
EncGuard(e) ==
  LET x == s.E[e.e] IN
  IF x.m < 0 THEN EINVAL ELSE IF s.M[x.m].fin THEN EPERM ELSE 0

EncDone(e, w, m) ==
  \* w: outcome of the model; a bad (descriptor) write leaves the end of the
  \* message unspecified
  LET x == s.E[e.e] IN
  IF Faulted(e) \/ w.bad
  THEN \* what was written before holds; the end of the message, the position and
       \* the number of descriptors attached by this call are unspecified
       LET h == s.M[m].buf
           old == s.heap[h].fds
           new == w.st.heap[h].fds IN
       /\ e.r < 0
       /\ \A i \in Max2(HeaderSize, e.ooff) + 1 .. x.pos : e.odata[i - e.ooff] = s.heap[h].data[i]
       /\ \E p \in {x.pos} \cup {q \in x.pos .. e.olen : e.olen - q < 8}, k \in Len(old) .. Len(new) :
          s' = [MsgResync(s, m, e, x.pos) EXCEPT !.E[e.e].pos = p, !.heap[h].fds = SubSeq(new, 1, k)]
  ELSE /\ RcOk(e.r, w.r)
       /\ (Has(e, "mid") => MsgFits(w.st, m, e))
       /\ s' = LET t == IF Has(e, "mid") THEN MsgSeen(w.st, m, e) ELSE w.st IN
               [t EXCEPT !.E[e.e].pos = w.pos]

EW(e) ==
  /\ e.op = "ew"
  /\ LET g == EncGuard(e) IN
     IF g # 0 THEN e.r = g /\ s' = s
     ELSE LET x == s.E[e.e]
              a == IF e.t = FD THEN [k |-> "f", v |-> e.f]
                   ELSE IF Has(e, "nv") THEN [k |-> "n", v |-> <<>>] ELSE [k |-> "v", v |-> e.v] IN
          EncDone(e, WriteArg(s, x.m, x.pos, e.t, a), x.m)
EWF(e) ==
  /\ e.op \in {"ewf", "ewargv"}
  /\ LET ts == FmtOf(e, FALSE)
         g == EncGuard(e)
         x == s.E[e.e] IN
     IF ts = <<>> \/ (e.op = "ewargv" /\ e.args = <<>>) THEN e.r = 0 /\ s' = s
     ELSE IF g # 0 THEN e.r < 0 /\ s' = s
     ELSE EncDone(e, WriteFmt(s, x.m, x.pos, ts, 1, e.args, 1), x.m)
ENew(e) == /\ e.op = "enew"
           /\ IF Faulted(e) THEN s' = s ELSE e.r = 0 /\ s' = [s EXCEPT !.E = Put(@, e.e, [m |-> -1, pos |-> 0])]
EDel(e) == e.op = "edel" /\ e.r = 0 /\ s' = [s EXCEPT !.E = Del(@, e.e)]
EInit(e) == e.op = "einit" /\ e.r = 0 /\ s' = [s EXCEPT !.E[e.e] = [m |-> e.m, pos |-> HeaderSize]]
EClr(e) == e.op = "eclr" /\ e.r = 0 /\ s' = [s EXCEPT !.E[e.e] = [m |-> -1, pos |-> 0]]

MWrite(e) ==
  /\ e.op \in {"mwrite", "mwargv"}
  /\ IF s.M[e.m].buf # 0 THEN e.r = EPERM /\ MsgFits(s, e.m, e) /\ s' = s
     ELSE LET t == InitMsg(s, e.m, e.id)
              ts == IF e.op = "mwargv" /\ e.args = <<>> THEN <<>> ELSE FmtOf(e, FALSE)
              w == TLCEval(WriteFmt(t, e.m, HeaderSize, ts, 1, e.args, 1)) IN
          IF Faulted(e) THEN MsgFaultState(e, w.st.heap[t.M[e.m].buf].fds)
          ELSE IF w.r = 0
          THEN e.r = 0 /\ LET u == Finished(w.st, e.m) IN MsgFits(u, e.m, e) /\ s' = MsgSeen(u, e.m, e)
          ELSE IF w.bad
          THEN e.r < 0 /\ s' = [w.st EXCEPT !.heap[t.M[e.m].buf].data = ObsData(<<>>, e), !.heap[t.M[e.m].buf].cap = e.ocap]
          ELSE RcOk(e.r, w.r) /\ MsgFits(w.st, e.m, e) /\ s' = MsgSeen(w.st, e.m, e)

\* ---- decoding ------------------------------------------------------------
TagAt(o, off) == LET i == CHOOSE i \in 1 .. Len(o.fds) : o.fds[i].off = off IN o.fds[i].tag
DR(e) ==
  /\ e.op = "dr"
  /\ LET x == s.D[e.d] IN
     IF x.m < 0 \/ (x.m >= 0 /\ s.M[x.m].buf = 0) THEN e.r < 0 /\ s' = s
     ELSE IF x.pos < 0 THEN s' = s       \* unspecified after a malformed argument
     ELSE LET o == s.heap[s.M[x.m].buf]
              q == TLCEval(DecArg(o.data, x.pos, e.t, o.fds)) IN
          IF Faulted(e) THEN s' = [s EXCEPT !.D[e.d].pos = -1]
          ELSE CASE q.res = "ok" ->
                      /\ e.r = 0
                      /\ (IF e.t = FD THEN e.tag = TagAt(o, x.pos + 1) /\ e.dup = 1 ELSE e.v = q.v)
                      /\ s' = [s EXCEPT !.D[e.d].pos = q.next]
                 [] q.res \in {"mismatch", "end"} -> e.r < 0 /\ s' = s
                 [] OTHER -> e.r < 0 /\ s' = [s EXCEPT !.D[e.d].pos = -1]

Fill(v) == v \o [i \in 1 .. 8 - Len(v) |-> 238]      \* untouched output bytes: 0xEE
(* read by format from pos; slots of out are checked when the whole succeeds *)
RECURSIVE ReadFmt(_, _, _, _, _, _, _)
ReadFmt(o, pos, ts, i, out, j, strs) ==
  IF i > Len(ts) THEN [ok |-> TRUE, pos |-> pos, fits |-> TRUE]
  ELSE LET t == ts[i] IN
  IF t = 0 THEN [ok |-> FALSE, pos |-> pos, fits |-> TRUE]
  ELSE IF t = STR /\ strs = 16 THEN [ok |-> FALSE, pos |-> pos, fits |-> TRUE]
  ELSE LET q == TLCEval(DecArg(o.data, pos, t, o.fds)) IN
       IF q.res = "bad" THEN [ok |-> FALSE, pos |-> -1, fits |-> TRUE]
       ELSE IF q.res # "ok" THEN [ok |-> FALSE, pos |-> pos, fits |-> TRUE]
       ELSE LET f == CASE t = STR -> out[j].k = "s" /\ out[j].st = "set" /\ out[j].v = q.v
                       [] t = BUF -> /\ out[j].k = "p" /\ out[j].st = "set" /\ out[j].v = q.v
                                     /\ SubSeq(out[j + 1].v, 1, 4) = LE32(Len(q.v))
                       [] t = FD -> out[j].k = "x" /\ out[j].tag = TagAt(o, pos + 1)
                       [] OTHER -> out[j].k = "i" /\ out[j].v = Fill(q.v)
                r == ReadFmt(o, q.next, ts, i + 1, out, j + NArgs(t), strs + (IF t = STR THEN 1 ELSE 0)) IN
            \* values are checked only if the whole read succeeds
            [ok |-> r.ok, pos |-> r.pos, fits |-> IF r.ok THEN f /\ r.fits ELSE TRUE]
\* no string left to the caller after a failure
NoStrings(out) == \A j \in 1 .. Len(out) : out[j].k = "s" => out[j].st \in {"unset", "null"}

DRF(e) ==
  /\ e.op = "drf"
  /\ LET x == s.D[e.d]
         ts == FmtOf(e, TRUE) IN
     IF ts = <<>> THEN e.r = 0 /\ s' = s
     ELSE IF x.m < 0 \/ (x.m >= 0 /\ s.M[x.m].buf = 0) THEN e.r < 0 /\ NoStrings(e.out) /\ s' = s
     ELSE IF x.pos < 0 THEN (e.r < 0 => NoStrings(e.out)) /\ s' = s
     ELSE LET q == TLCEval(ReadFmt(s.heap[s.M[x.m].buf], x.pos, ts, 1, e.out, 1, 0)) IN
          IF Faulted(e) THEN NoStrings(e.out) /\ s' = [s EXCEPT !.D[e.d].pos = -1]
          ELSE /\ (e.r = 0) = q.ok /\ q.fits
               /\ (e.r # 0 => e.r < 0 /\ NoStrings(e.out))
               /\ s' = [s EXCEPT !.D[e.d].pos = q.pos]
MRead(e) ==
  /\ e.op = "mread"
  /\ LET m == s.M[e.m]
         ts == FmtOf(e, TRUE) IN
     IF ts = <<>> THEN e.r = 0
     ELSE IF m.buf = 0 THEN e.r < 0 /\ NoStrings(e.out)
     ELSE LET q == TLCEval(ReadFmt(s.heap[m.buf], HeaderSize, ts, 1, e.out, 1, 0)) IN
          IF Faulted(e) THEN NoStrings(e.out)
          ELSE (e.r = 0) = q.ok /\ q.fits /\ (e.r # 0 => e.r < 0 /\ NoStrings(e.out))
  /\ s' = s
DNew(e) == /\ e.op = "dnew"
           /\ IF Faulted(e) THEN s' = s ELSE e.r = 0 /\ s' = [s EXCEPT !.D = Put(@, e.d, [m |-> -1, pos |-> 0])]
DDel(e) == e.op = "ddel" /\ e.r = 0 /\ s' = [s EXCEPT !.D = Del(@, e.d)]
DInit(e) == e.op = "dinit" /\ e.r = 0 /\ s' = [s EXCEPT !.D[e.d] = [m |-> e.m, pos |-> HeaderSize]]
DClr(e) == e.op = "dclr" /\ e.r = 0 /\ s' = [s EXCEPT !.D[e.d] = [m |-> -1, pos |-> 0]]

\* ---- dump ------------------------------------------------------------------
MDump(e) ==
  /\ e.op = "mdump"
  /\ LET m == s.M[e.m] IN
     IF m.buf = 0 THEN e.r < 0
     ELSE LET f == TLCEval(DumpText(m.mid, s.heap[m.buf].data, s.heap[m.buf].fds, s.ft))
              cut == Len(f.txt) >= e.max IN
          /\ e.nul = 1
          /\ CASE f.st = "ok" -> e.r = 0 /\ e.txt = Truncated(f.txt, e.max)
               [] f.st = "bad" -> /\ (cut \/ e.r < 0)
                                  /\ e.txt = Truncated(f.txt, e.max)
               [] OTHER -> LET n == Min2(Len(f.txt), IF e.max < 5 THEN 0 ELSE e.max - 5) IN
                           SubSeq(e.txt, 1, n) = SubSeq(f.txt, 1, n)
  /\ s' = s
MADump(e) ==
  /\ e.op = "madump"
  /\ LET m == s.M[e.m] IN
     IF m.buf = 0 THEN e.r < 0
     ELSE LET f == TLCEval(DumpText(m.mid, s.heap[m.buf].data, s.heap[m.buf].fds, s.ft)) IN
          IF Faulted(e) THEN e.left = 0
          ELSE CASE f.st = "ok" -> e.r = 0 /\ e.txt = f.txt
                 [] f.st = "bad" -> e.r < 0 /\ e.left = 0
                 [] OTHER -> IF e.r < 0 THEN TRUE ELSE IsPrefixOf(f.txt, e.txt)
  /\ s' = s
FTab(e) == e.op = "ftab" /\ s' = [s EXCEPT !.ft = Put(@, e.v, e.txt)]

\* ---- stream decoder ----------------------------------------------------------
PNew(e) == /\ e.op = "pnew"
           /\ IF Faulted(e) THEN s' = s ELSE e.r = 0 /\ s' = [s EXCEPT !.P = Put(@, e.p, SD!Idle)]
PDel(e) == e.op = "pdel" /\ e.r = 0 /\ s' = [s EXCEPT !.P = Del(@, e.p)]
Deliver(st, m, d) ==
  [NewHeap(st, NewObj(d, <<>>)) EXCEPT
     !.M = Put(@, m, [buf |-> st.nxt, fin |-> TRUE, mid |-> SubSeq(d, 5, 8)])]
PDec(e) ==
  /\ e.op = "pdec"
  /\ \E huge \in {"given", "refused", "counted"} :
     \E nf \in {IF Has(e, "flt") /\ e.flt > 0 THEN (IF e.fmore < 0 THEN -1 ELSE 1) ELSE 0} :
     \E q \in {SD!Feed(s.P[e.p], e.v, 1, nf, huge)} :
          /\ e.r = q.used
          /\ IF q.out = <<>> THEN e.got = "null" /\ s' = [s EXCEPT !.P[e.p] = q.st]
             ELSE /\ e.got = "msg"
                  /\ \E t \in {[Deliver(s, e.m, q.out[1]) EXCEPT !.P[e.p] = q.st]} :
                     MsgFits(t, e.m, e) /\ s' = MsgSeen(t, e.m, e)
PRel(e) == e.op = "prel" /\ e.r = 0 /\ s' = IF e.m \notin DOMAIN s.M THEN s ELSE [DropBuf(s, e.m) EXCEPT !.M = Del(@, e.m)]

\* ---- end: everything was destroyed, nothing is left --------------------------
End(e) == /\ e.op = "end" /\ e.nalloc = 0 /\ e.n = Cardinality(s.F)
          /\ s' = s
Fin(e) == e.op = "fin" /\ s' = s

Step(e) ==
  \/ BNew(e) \/ BNewD(e) \/ BCopy(e) \/ BRef(e) \/ BUnref(e) \/ BRace(e) \/ BSh(e) \/ BSetLen(e)
  \/ BSetCap(e) \/ BEns(e) \/ BApp(e) \/ BAppB(e) \/ BWr(e) \/ BRd(e) \/ BHuge(e)
  \/ BGd(e) \/ BPoke(e) \/ BObs(e) \/ FOp(e)
  \/ MNew(e) \/ MCopy(e) \/ MFrom(e) \/ MDel(e) \/ MClr(e) \/ MInit(e) \/ MFin(e)
  \/ MObs(e) \/ MBuf(e) \/ EW(e) \/ EWF(e) \/ ENew(e) \/ EDel(e) \/ EInit(e) \/ EClr(e)
  \/ MWrite(e) \/ DR(e) \/ DRF(e) \/ MRead(e) \/ DNew(e) \/ DDel(e) \/ DInit(e) \/ DClr(e)
  \/ MDump(e) \/ MADump(e) \/ FTab(e) \/ PNew(e) \/ PDel(e) \/ PDec(e) \/ PRel(e)
  \/ End(e) \/ Fin(e)

Next == /\ l <= Len(Traces[tid].ev)
        /\ Step(Ev)
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ TLCSet(tid, l')

Spec == Init /\ [][Next]_vars

\* progress registers: TLCGet(t) = next event of trace t
InitReg == \A t \in 1 .. NT : TLCSet(t, 1)
ASSUME InitReg
Rejected == {t \in 1 .. NT : TLCGet(t) # Len(Traces[t].ev) + 1}
Report == /\ PrintT(<<"TOTAL", NT, "REJECTED", Cardinality(Rejected)>>)
          /\ \A t \in Rejected : PrintT(<<"REJECT", t, TLCGet(t)>>)
=============================================================================
