------------------------------- MODULE Codec -------------------------------
(* Buffers, messages, encoders, decoders and stream decoders as one state    *)
(* machine; one action per call of the public API. Each operator takes the   *)
(* state s, the arguments, and yields the set of allowed outcomes            *)
(* [s, r (set of return codes), ...].                                        *)
EXTENDS Wire

(* state:
   heap : buffer objects  h |-> [ref, cap, data, fds]   (cap -1: not yet observed)
   nxt  : next fresh buffer object
   B    : user buffer handles -> h
   M    : messages  m |-> [buf (0: none), fin, mid]
   E    : encoders  e |-> [m (-1: none), pos (-1: unspecified)]
   D    : decoders  d |-> [m, pos]
   P    : stream decoders p |-> StreamDecoder state
   F    : user's open files (set of tags)
   ft   : texts of floating point values                                     *)

EPERM == -1   ENOMEM == -12   EINVAL == -22  ENFILE == -23
AnyErr == -1000     \* any negative value

Unknown(n) == [i \in 1 .. n |-> -1]
Empty == <<>>

InitState == [heap |-> <<>>, nxt |-> 1, B |-> <<>>, M |-> <<>>, E |-> <<>>,
              D |-> <<>>, P |-> <<>>, F |-> {}, ft |-> <<>>]

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

NewHeap(s, rec) == [s EXCEPT !.heap = Put(@, s.nxt, rec), !.nxt = @ + 1]

\* release one reference; the object (and its descriptors) go with the last
Unref(s, h) == IF s.heap[h].ref = 1 THEN [s EXCEPT !.heap = Del(@, h)]
               ELSE [s EXCEPT !.heap[h].ref = @ - 1]
Ref(s, h) == [s EXCEPT !.heap[h].ref = @ + 1]

\* number of descriptors owned by live buffers
RECURSIVE SumFds(_, _)
SumFds(hp, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN
                 Len(hp[x].fds) + SumFds(hp, S \ {x})
OwnedFds(s) == SumFds(s.heap, DOMAIN s.heap)

NewCap(o, need) == IF need <= o.cap THEN o.cap ELSE -1

\* write bytes v at offset p of object o (unshared)
Write(o, p, v) ==
  LET d == o.data
      e == p + Len(v)
      n == Max2(Len(d), e)
  IN [o EXCEPT !.cap = IF o.cap >= e THEN o.cap ELSE -1,
               !.data = TLCEval([i \in 1 .. n |-> IF i > p /\ i <= e THEN v[i - p]
                                          ELSE IF i <= Len(d) THEN d[i] ELSE -1])]

\* content as seen in a copy: the numbers of the descriptors differ
Blur(d, fds) == [i \in 1 .. Len(d) |-> IF \E k \in 1 .. Len(fds) : i > fds[k].off /\ i <= fds[k].off + 4
                                       THEN -1 ELSE d[i]]

(* does an observed (len, cap, data from off) fit the object? *)
Known(a, b) == \A i \in 1 .. Len(b) : a[i] = b[i] \/ a[i] = -1
Fits(o, e) ==
  /\ "olen" \in DOMAIN e
  /\ e.olen = Len(o.data)
  /\ e.ocap >= e.olen
  /\ (o.cap >= 0 => e.ocap = o.cap)
  /\ LET tail == SubSeq(o.data, e.ooff + 1, Len(o.data)) IN
     Len(tail) = Len(e.odata) /\ (tail = e.odata \/ Known(tail, e.odata))
\* the object with what was observed
Seen(o, e) == [o EXCEPT !.cap = e.ocap,
     !.data = IF e.ooff = 0 THEN e.odata ELSE SubSeq(@, 1, e.ooff) \o e.odata]
=============================================================================
