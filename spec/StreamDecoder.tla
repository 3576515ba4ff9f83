--------------------------- MODULE StreamDecoder ---------------------------
(* The stream decoder as a byte-wise machine. Parameters describe the frame  *)
(* format so that the same machine is model checked with a tiny format and   *)
(* used with the real one to validate traces.                                *)
EXTENDS Naturals, Integers, Sequences

CONSTANTS Mg,            \* magic sequence
          Hdr,           \* header length (with magic)
          SizeOf(_),     \* total size denoted by a complete header (-1: huge)
          Big            \* above this size memory may be refused

\* k: number of magic bytes matched or more: header bytes in hdr; need: size
Idle == [hdr |-> <<>>, pay |-> <<>>, need |-> 0]

Cut(s, i, j) == IF i > j THEN <<>> ELSE SubSeq(s, i, j)

\* longest suffix of s that is a proper prefix of the magic: what a scanner
\* that never misses a magic must remember after the bytes s
RECURSIVE Border(_)
Border(s) == IF s = <<>> THEN <<>>
             ELSE IF Len(s) <= Len(Mg) /\ s = Cut(Mg, 1, Len(s)) THEN s
             ELSE Border(Tail(s))

(* Result of feeding bytes in[i..]: [st, used, out] ; out = <<>> or <<frame>>. *)
(* nf: headers completed in this call for which memory is refused (0: none,    *)
(* 1: the first one, -1: all): such a frame is given up and scanning resumes   *)
(* right after its header. huge: whether memory is "given" for sizes above Big *)
(* or that cannot be represented (SizeOf = -1), or "refused", or refused and   *)
(* "counted" as the one failure of nf = 1.                                     *)
RECURSIVE Feed(_, _, _, _, _)
Feed(st, in, i, nf, huge) ==
  IF st.need # 0 THEN                       \* payload
     IF st.need < 0 THEN [st |-> st, used |-> Len(in), out |-> <<>>]
     ELSE
     LET n == st.need - Len(st.hdr) - Len(st.pay)
         m == IF Len(in) - i + 1 < n THEN Len(in) - i + 1 ELSE n
         p == st.pay \o Cut(in, i, i + m - 1) IN
     IF m = n THEN [st |-> Idle, used |-> i + m - 1, out |-> <<st.hdr \o p>>]
     ELSE [st |-> [st EXCEPT !.pay = p], used |-> i + m - 1, out |-> <<>>]
  ELSE IF i > Len(in) THEN [st |-> st, used |-> i - 1, out |-> <<>>]
  ELSE IF st.hdr = <<>> /\ in[i] # Mg[1] THEN     \* nothing that can begin a magic: next byte that can
     LET J == {j \in i .. Len(in) : in[j] = Mg[1]} IN
     IF J = {} THEN [st |-> st, used |-> Len(in), out |-> <<>>]
     ELSE Feed(st, in, CHOOSE j \in J : \A k \in J : j <= k, nf, huge)
  ELSE LET h == Append(st.hdr, in[i]) IN
     IF Len(h) <= Len(Mg) THEN              \* magic
        Feed([st EXCEPT !.hdr = Border(h)], in, i + 1, nf, huge)
     ELSE IF Len(h) < Hdr THEN Feed([st EXCEPT !.hdr = h], in, i + 1, nf, huge)
     ELSE LET n == SizeOf(h) IN
          IF n >= 0 /\ n < Hdr THEN Feed(Idle, in, i + 1, nf, huge)      \* bad size: rescan
          ELSE IF (n < 0 \/ n > Big) /\ huge # "given"
               THEN Feed(Idle, in, i + 1, IF nf = 1 /\ huge = "counted" THEN 0 ELSE nf, huge)
          ELSE IF nf # 0 THEN Feed(Idle, in, i + 1, IF nf = 1 THEN 0 ELSE nf, huge)
          ELSE IF n = Hdr THEN [st |-> Idle, used |-> i, out |-> <<h>>]
          ELSE Feed([hdr |-> h, pay |-> <<>>, need |-> n], in, i + 1, nf, huge)
=============================================================================
