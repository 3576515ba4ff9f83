-------------------------- MODULE StreamDecoderMC --------------------------
(* Model checking of the stream decoder with a tiny frame format: for every   *)
(* byte stream up to MaxLen over the alphabet and every way of cutting it,    *)
(* the frames delivered are those of a declarative reading of the stream.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxLen, Chunk

Alpha == {1, 2, 4, 5}
MgMC == <<1, 2, 1>>
HdrMC == 4
SizeMC(h) == h[4]

SD == INSTANCE StreamDecoder WITH Mg <- MgMC, Hdr <- HdrMC, SizeOf <- SizeMC, Big <- 100

VARIABLES all, st, out
vars == <<all, st, out>>

(* Declarative: from position i (1-based), the first occurrence of the magic  *)
(* whose header is complete starts a frame, or is skipped as a whole if its   *)
(* size is bad.                                                               *)
MagicAt(s, i) == i + 2 <= Len(s) /\ SubSeq(s, i, i + 2) = MgMC
RECURSIVE Frames(_, _)
Frames(s, i) ==
  LET S == {j \in i .. Len(s) : MagicAt(s, j)} IN
  IF S = {} THEN <<>>
  ELSE LET j == CHOOSE j \in S : \A k \in S : j <= k IN
       IF j + 3 > Len(s) THEN <<>>
       ELSE LET n == s[j + 3] IN
            IF n < HdrMC THEN Frames(s, j + HdrMC)
            ELSE IF j + n - 1 > Len(s) THEN <<>>
            ELSE <<SubSeq(s, j, j + n - 1)>> \o Frames(s, j + n)

\* feed a whole chunk, as the callers do: again from the first byte not used
RECURSIVE All(_, _, _)
All(t, in, o) == LET q == SD!Feed(t, in, 1, 0, "given") IN
                 IF q.used = Len(in) THEN [st |-> q.st, out |-> o \o q.out]
                 ELSE All(q.st, SubSeq(in, q.used + 1, Len(in)), o \o q.out)

Chunks == UNION {[1 .. k -> Alpha] : k \in 1 .. Chunk}

Init == all = <<>> /\ st = SD!Idle /\ out = <<>>
Next == \E c \in Chunks :
          /\ Len(all) + Len(c) <= MaxLen
          /\ all' = all \o c
          /\ LET r == All(st, c, out) IN st' = r.st /\ out' = r.out
Spec == Init /\ [][Next]_vars

Exact == out = Frames(all, 1)
\* the state depends on the stream only: it is that of a byte-wise decoding
RECURSIVE Bytewise(_, _, _)
Bytewise(t, s, i) == IF i > Len(s) THEN t ELSE Bytewise(SD!Feed(t, <<s[i]>>, 1, 0, "given").st, s, i + 1)
Canonical == st = Bytewise(SD!Idle, all, 1)
\* nothing already complete is held back
Prompt == st.need > 0 => Len(st.hdr) + Len(st.pay) < st.need
=============================================================================
