------------------------------ MODULE PyTrace ------------------------------
(* Validation of the Python implementation against the wire format: the same   *)
(* Wire and StreamDecoder modules that the C implementation is validated with, *)
(* so that both produce the same bytes and read the same values.               *)
EXTENDS Wire, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)
VARIABLES tid, l, s
vars == <<tid, l, s>>
Ev == Traces[tid].ev[l]
Init == tid \in 1 .. NT /\ l = 1 /\ s = <<>>

SD == INSTANCE StreamDecoder WITH Mg <- Magic, Hdr <- HeaderSize,
        SizeOf <- LAMBDA h : LE32ToNat(SubSeq(h, 9, 12)), Big <- 1000000000

\* formats: %[l|ll|h|hh]{d,i,u}, %s, %p (a buffer, without a length), %[l]{f,F,e,E,g,G};
\* the width of l is 32 bits. 0 ends the sequence where the format is refused.
PyInt(fl, signed) ==
  LET pick(a, b) == IF signed THEN a ELSE b IN
  CASE fl = "ll" -> pick(I64, U64) [] fl = "hh" -> pick(I8, U8) [] fl = "h" -> pick(I16, U16) [] OTHER -> pick(I32, U32)
PyFlag(f, i) ==
  IF At(f, i) \notin {104, 108} THEN [fl |-> "", n |-> i]
  ELSE LET c == IF f[i] = 104 THEN "h" ELSE "l" IN
       IF At(f, i + 1) = f[i] THEN [fl |-> c \o c, n |-> i + 2] ELSE [fl |-> c, n |-> i + 1]
RECURSIVE PyFormat(_, _, _)
PyFormat(f, i, acc) ==
  IF i > Len(f) THEN acc
  ELSE IF f[i] # 37 THEN Append(acc, 0)
  ELSE LET q == PyFlag(f, i + 1)
           c == At(f, q.n)
           t == CASE c \in {100, 105} -> PyInt(q.fl, TRUE)
                  [] c = 117 -> PyInt(q.fl, FALSE)
                  [] c = 115 -> STR
                  [] c = 112 -> BUF
                  [] c \in {102, 70, 101, 69, 103, 71} ->
                       IF q.fl \in {"ll", "h", "hh"} THEN 0 ELSE IF q.fl = "l" THEN F64 ELSE F32
                  [] OTHER -> 0 IN
       IF c = 0 THEN acc                       \* nothing follows: ignored
       ELSE IF t = 0 THEN Append(acc, 0) ELSE PyFormat(f, q.n + 1, Append(acc, t))

IntTypes == {I8, U8, I16, U16, I32, U32, I64, U64}
ValOf(t, v) == IF t \in IntTypes THEN SubSeq(v, 1, Width(t)) ELSE v

RECURSIVE EncAll(_, _, _)
EncAll(T, A, i) == IF i > Len(T) THEN <<>> ELSE EncArg(T[i], ValOf(T[i], A[i])) \o EncAll(T, A, i + 1)

PW(e) ==
  /\ e.op = "pw"
  /\ \E T \in {PyFormat(e.f, 1, <<>>)} :
     TLCEval(IF (T # <<>> /\ T[Len(T)] = 0) \/ \E i \in 1 .. Len(T) : i <= Len(e.a) /\ ~EncodableArg(T[i], e.a[i]) THEN e.r = -1
     ELSE IF Len(e.a) < Len(T) THEN e.r < 0
     ELSE \E p \in {EncAll(T, e.a, 1)} : e.r = 0 /\ e.x = Header(e.id, HeaderSize + Len(p)) \o p)
  /\ s' = s

\* well formed UTF-8
Lead(c) == CASE c < 128 -> 1 [] c \in 128 .. 191 -> -1 [] c \in 194 .. 223 -> 2 [] c \in 224 .. 239 -> 3
             [] c \in 240 .. 244 -> 4 [] OTHER -> 0
Utf8(b) ==
  \A i \in 1 .. Len(b) :
    LET c == b[i]
        n == Lead(c) IN
    CASE n = 1 -> TRUE
      [] n = 0 -> FALSE
      [] n = -1 -> \E j \in 1 .. 3 : i - j >= 1 /\ Lead(b[i - j]) > j
      [] OTHER -> /\ i + n - 1 <= Len(b)
                  /\ \A k \in i + 1 .. i + n - 1 : Lead(b[k]) = -1
                  /\ (c = 224 => b[i + 1] >= 160) /\ (c = 237 => b[i + 1] < 160)
                  /\ (c = 240 => b[i + 1] >= 144) /\ (c = 244 => b[i + 1] < 144)
NaN(t, v) == CASE t = F32 -> v[4] % 128 = 127 /\ v[3] >= 128 /\ (v[3] > 128 \/ v[2] # 0 \/ v[1] # 0)
               [] t = F64 -> v[8] % 128 = 127 /\ v[7] >= 240 /\ (v[7] > 240 \/ \E i \in 1 .. 6 : v[i] # 0)
               [] OTHER -> FALSE
\* one argument at p: a string is everything before its final NUL
PyArg(d, p, t) ==
  LET r == DecArg(d, p, t, <<>>) IN
  IF t # STR \/ r.res # "ok" THEN r
  ELSE LET v == SubSeq(d, DecVarint(d, p + 1).next + 1, r.next - 1) IN
       IF Utf8(v) THEN [r EXCEPT !.v = v] ELSE Bad
RECURSIVE DecAll(_, _, _, _, _)
DecAll(d, p, T, i, acc) ==
  IF i > Len(T) THEN [ok |-> TRUE, v |-> acc]
  ELSE IF T[i] = 0 THEN [ok |-> FALSE, v |-> <<>>]
  ELSE CHOOSE x \in {IF r.res # "ok" THEN [ok |-> FALSE, v |-> <<>>]
                     ELSE DecAll(d, r.next, T, i + 1, Append(acc, IF NaN(T[i], r.v) THEN <<-1>> ELSE r.v))
                     : r \in {PyArg(d, p, T[i])}} : TRUE
PR(e) ==
  /\ e.op = "pr"
  /\ \E q \in {DecAll(e.x, HeaderSize, PyFormat(e.f, 1, <<>>), 1, <<>>)} :
       IF q.ok THEN e.r = 0 /\ e.v = q.v ELSE e.r = -1
  /\ s' = s

\* the text: that of the C implementation, but for buffers and floating point numbers
RECURSIVE WellFormed(_, _, _)
\* [ok, plain]
WellFormed(d, p, plain) ==
  IF p >= Len(d) THEN [ok |-> TRUE, plain |-> plain]
  ELSE IF d[p + 1] \notin 1 .. 12 THEN [ok |-> FALSE, plain |-> FALSE]
  ELSE CHOOSE x \in {IF r.res # "ok" THEN [ok |-> FALSE, plain |-> FALSE]
                     ELSE WellFormed(d, r.next, plain /\ d[p + 1] \notin {BUF, F32, F64}
                                                /\ (d[p + 1] # STR \/ \A i \in 1 .. Len(r.v) : r.v[i] # 0))
                     : r \in {PyArg(d, p, d[p + 1])}} : TRUE
PD(e) ==
  /\ e.op = "pd"
  /\ \E q \in {WellFormed(e.x, HeaderSize, TRUE)} :
       TLCEval(IF ~q.ok THEN e.r = -1
               ELSE /\ e.r = 0
                    /\ IF q.plain THEN \E f \in {DumpText(SubSeq(e.x, 5, 8), e.x, <<>>, <<>>)} : e.txt = f.txt
                       ELSE TRUE)
  /\ s' = s

PN(e) == e.op = "pn" /\ s' = (e.p :> SD!Idle) @@ s
PF(e) ==
  /\ e.op = "pf"
  /\ \E q \in {SD!Feed(s[e.p], e.b, e.o + 1, 0, "given")} :
       /\ e.u = q.used
       /\ IF q.out = <<>> THEN e.got = 0 ELSE e.got = 1 /\ e.x = q.out[1] /\ e.id = SubSeq(q.out[1], 5, 8)
       /\ s' = [s EXCEPT ![e.p] = q.st]
Fin(e) == e.op = "fin" /\ s' = s
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Ev IN PW(e) \/ PR(e) \/ PD(e) \/ PN(e) \/ PF(e) \/ Fin(e)
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ TLCSet(tid, l')
Spec == Init /\ [][Next]_vars
ASSUME \A t \in 1 .. NT : TLCSet(t, 1)
Rejected == {t \in 1 .. NT : TLCGet(t) # Len(Traces[t].ev) + 1}
Report == /\ PrintT(<<"TOTAL", NT, "REJECTED", Cardinality(Rejected)>>)
          /\ \A t \in Rejected : PrintT(<<"REJECT", t, TLCGet(t)>>)
=============================================================================
