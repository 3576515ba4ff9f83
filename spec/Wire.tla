------------------------------- MODULE Wire -------------------------------
(* The libpomp wire format (protocol.txt) as operators on byte sequences.   *)
(* Integers wider than 31 bits are little-endian byte (or bit) sequences.   *)
(* A byte of unknown value (never written, or uninitialised) is -1.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

I8 == 1   U8 == 2   I16 == 3  U16 == 4  I32 == 5  U32 == 6  I64 == 7
U64 == 8  STR == 9  BUF == 10 F32 == 11 F64 == 12 FD == 13
\* driver codes of the no-copy readers
CSTR == 19
CBUF == 20

Magic == <<80, 79, 77, 80>>          \* "POMP"
HeaderSize == 12
MaxFds == 4
MaxStrSize == 65535                  \* with the final NUL

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>

Bits(bytes) == [i \in 1 .. 8 * Len(bytes) |->
                  (bytes[((i - 1) \div 8) + 1] \div Pow2[((i - 1) % 8) + 1]) % 2]
Xor(a, b) == IF a = b THEN 0 ELSE 1
BitAt(bits, i) == IF i <= Len(bits) THEN bits[i] ELSE 0
BytesOf(bits, n) == [j \in 1 .. n |->
      LET b(k) == BitAt(bits, 8 * (j - 1) + k)
      IN b(1) + 2*b(2) + 4*b(3) + 8*b(4) + 16*b(5) + 32*b(6) + 64*b(7) + 128*b(8)]

\* number of the highest set bit (0: none)
HighBit(bits) == LET S == {i \in 1 .. Len(bits) : bits[i] = 1}
                 IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i

\* groups of 7 bits, low order first, bit 7 set when another group follows
Varint(bits) ==
  LET g == Max2(1, (HighBit(bits) + 6) \div 7)
  IN [j \in 1 .. g |->
        LET b(k) == BitAt(bits, 7 * (j - 1) + k)
        IN b(1) + 2*b(2) + 4*b(3) + 8*b(4) + 16*b(5) + 32*b(6) + 64*b(7)
           + (IF j < g THEN 128 ELSE 0)]

ZigZag(bits) == LET n == Len(bits) IN
                [i \in 1 .. n |-> IF i = 1 THEN bits[n] ELSE Xor(bits[i - 1], bits[n])]
UnZigZag(bits) == LET n == Len(bits) IN
                [i \in 1 .. n |-> Xor(IF i < n THEN bits[i + 1] ELSE 0, bits[1])]

\* 32-bit little endian bytes of a small natural, and back (-1: above 2^30)
LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
LE32ToNat(b) == IF b[4] >= 64 THEN -1
                ELSE b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
BitsToNat(bits) == IF HighBit(bits) > 30 THEN -1
                   ELSE LE32ToNat(BytesOf(bits, 4))

Header(mid, size) == Magic \o mid \o LE32(size)

\* encoding of one argument (type byte, then data); v: bytes of the value
EncArg(t, v) ==
  CASE t \in {I8, U8, I16, U16, F32, F64} -> <<t>> \o v
    [] t \in {I32, I64} -> <<t>> \o Varint(ZigZag(Bits(v)))
    [] t \in {U32, U64} -> <<t>> \o Varint(Bits(v))
    [] t = STR -> <<t>> \o Varint(Bits(LE32(Len(v) + 1))) \o v \o <<0>>
    [] t = BUF -> <<t>> \o Varint(Bits(LE32(Len(v)))) \o v

EncodableArg(t, v) == t = STR => Len(v) + 1 <= MaxStrSize

\* ------------------------------------------------------------------------
\* decoding; positions are 0-based offsets in the message

Fixed(t) == CASE t \in {I8, U8} -> 1 [] t \in {I16, U16} -> 2
              [] t = F32 -> 4 [] t = F64 -> 8 [] OTHER -> 0

\* a varint must have at most 10 groups
RECURSIVE VarEnd(_, _, _)
VarEnd(d, p, n) == IF p >= Len(d) \/ n = 10 THEN -1
                   ELSE IF d[p + 1] < 128 THEN p ELSE VarEnd(d, p + 1, n + 1)
DecVarint(d, p) ==
  LET e == VarEnd(d, p, 0) IN
  IF e < 0 THEN [ok |-> FALSE, bits |-> <<>>, next |-> p]
  ELSE [ok |-> TRUE,
        bits |-> [i \in 1 .. 7 * (e - p + 1) |->
                     LET by == d[p + ((i - 1) \div 7) + 1] IN
                     (by \div Pow2[((i - 1) % 7) + 1]) % 2],
        next |-> e + 1]
First(bits, n) == [i \in 1 .. n |-> BitAt(bits, i)]

IndexOf0(d, from, len) == \* 0-based index of the first NUL in d[from .. from+len)
  CHOOSE k \in 0 .. len - 1 : d[from + k + 1] = 0 /\ \A j \in 0 .. k - 1 : d[from + j + 1] # 0

Bad == [res |-> "bad", v |-> <<>>, next |-> 0]

(* Read an argument of type t at offset p of the message bytes d; fds are the *)
(* offsets at which descriptors are registered.                              *)
(* res: ok, mismatch (other type: nothing consumed), end (no more argument), *)
(* bad (malformed).                                                          *)
DecArg(d, p, t0, fds) ==
  LET t == IF t0 = CSTR THEN STR ELSE IF t0 = CBUF THEN BUF ELSE t0 IN
  IF p >= Len(d) THEN [res |-> "end", v |-> <<>>, next |-> p]
  ELSE IF d[p + 1] # t THEN [res |-> "mismatch", v |-> <<>>, next |-> p]
  ELSE IF Fixed(t) > 0 THEN
         IF p + 1 + Fixed(t) > Len(d) THEN Bad
         ELSE [res |-> "ok", v |-> SubSeq(d, p + 2, p + 1 + Fixed(t)), next |-> p + 1 + Fixed(t)]
  ELSE IF t = FD THEN
         IF (p + 1) \in {fds[i].off : i \in 1 .. Len(fds)} /\ p + 5 <= Len(d)
         THEN [res |-> "ok", v |-> <<>>, next |-> p + 5] ELSE Bad
  ELSE LET vi == DecVarint(d, p + 1) IN
       IF ~vi.ok THEN Bad
       ELSE IF t \in {I32, U32} THEN
              IF HighBit(vi.bits) > 32 THEN Bad
              ELSE LET b == First(vi.bits, 32) IN
                   [res |-> "ok", v |-> BytesOf(IF t = I32 THEN UnZigZag(b) ELSE b, 4), next |-> vi.next]
       ELSE IF t \in {I64, U64} THEN
              IF HighBit(vi.bits) > 64 THEN Bad
              ELSE LET b == First(vi.bits, 64) IN
                   [res |-> "ok", v |-> BytesOf(IF t = I64 THEN UnZigZag(b) ELSE b, 8), next |-> vi.next]
       ELSE LET n == BitsToNat(vi.bits) IN   \* STR or BUF
            IF n < 0 \/ vi.next + n > Len(d) \/ (t = STR /\ (n = 0 \/ n > MaxStrSize)) THEN Bad
            ELSE IF t = STR THEN
                   IF d[vi.next + n] # 0 THEN Bad
                   ELSE [res |-> "ok", v |-> SubSeq(d, vi.next + 1, vi.next + IndexOf0(d, vi.next, n)),
                         next |-> vi.next + n]
            ELSE [res |-> "ok", v |-> SubSeq(d, vi.next + 1, vi.next + n), next |-> vi.next + n]

\* ------------------------------------------------------------------------
\* text of values

RECURSIVE Dbl(_, _, _)
Dbl(ds, i, carry) == \* little-endian decimal digits, doubled, plus carry
  IF i > Len(ds) THEN (IF carry = 0 THEN ds ELSE Append(ds, carry))
  ELSE LET x == 2 * ds[i] + carry IN Dbl([ds EXCEPT ![i] = x % 10], i + 1, x \div 10)
RECURSIVE ToDec(_, _, _)
ToDec(bits, i, ds) == IF i = 0 THEN ds ELSE ToDec(bits, i - 1, Dbl(ds, 1, bits[i]))
DecText(bits) == LET ds == ToDec(bits, HighBit(bits), <<0>>) IN
                 [k \in 1 .. Len(ds) |-> 48 + ds[Len(ds) + 1 - k]]
RECURSIVE Inc(_, _)
Inc(bits, i) == IF i > Len(bits) THEN bits
                ELSE IF bits[i] = 0 THEN [bits EXCEPT ![i] = 1] ELSE Inc([bits EXCEPT ![i] = 0], i + 1)
Neg(bits) == Inc([i \in 1 .. Len(bits) |-> 1 - bits[i]], 1)
UText(v) == DecText(Bits(v))
IText(v) == LET b == Bits(v) IN IF b[Len(b)] = 0 THEN DecText(b) ELSE <<45>> \o DecText(Neg(b))

TypeName(t) ==
  CASE t = I8 -> <<73, 56>> [] t = U8 -> <<85, 56>>
    [] t = I16 -> <<73, 49, 54>> [] t = U16 -> <<85, 49, 54>>
    [] t = I32 -> <<73, 51, 50>> [] t = U32 -> <<85, 51, 50>>
    [] t = I64 -> <<73, 54, 52>> [] t = U64 -> <<85, 54, 52>>
    [] t = STR -> <<83, 84, 82>> [] t = BUF -> <<66, 85, 70>>
    [] t = F32 -> <<70, 51, 50>> [] t = F64 -> <<70, 54, 52>>
    [] t = FD -> <<70, 68>>

ArgText(t, v, fttab) ==
  CASE t \in {I8, I16, I32, I64} -> IText(v)
    [] t \in {U8, U16, U32, U64} -> UText(v)
    [] t = STR -> <<39>> \o v \o <<39>>
    [] t = BUF -> <<>>                    \* content is not dumped
    [] t \in {F32, F64} -> fttab[v]
    [] t = FD -> <<>>

(* Dump of a message: [txt, st] with st = "ok" (complete), "bad" (malformed: *)
(* text up to the bad argument) or "unk" (value with no known text: the text *)
(* up to there).                                                             *)
RECURSIVE DumpArgs(_, _, _, _, _)
DumpArgs(d, p, fds, fttab, acc) ==
  IF p >= Len(d) THEN [txt |-> acc \o <<125>>, st |-> "ok"]
  ELSE IF ~(d[p + 1] \in 1 .. 13) THEN [txt |-> acc, st |-> "bad"]
  ELSE LET t == d[p + 1]
           r == DecArg(d, p, t, fds)
           h == acc \o <<44, 32>> \o TypeName(t) \o <<58>> IN
       IF r.res # "ok" THEN [txt |-> acc, st |-> "bad"]
       ELSE IF t = FD \/ (t \in {F32, F64} /\ r.v \notin DOMAIN fttab)
            THEN [txt |-> h, st |-> "unk"]
       ELSE DumpArgs(d, r.next, fds, fttab, h \o ArgText(t, r.v, fttab))
DumpText(mid, d, fds, fttab) ==
  DumpArgs(d, HeaderSize, fds, fttab, <<123, 73, 68, 58>> \o UText(mid))

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* bounded dump: what must be in a destination of max bytes (without the NUL)
Truncated(full, max) ==
  IF max = 0 THEN <<>>
  ELSE IF Len(full) < max THEN full
  ELSE IF max < 5 THEN SubSeq(full, 1, max - 1)
  ELSE SubSeq(full, 1, max - 5) \o <<46, 46, 46, 125>>

\* ------------------------------------------------------------------------
\* format strings: sequence of [t, w] tokens, w = "ok" or "err" (stops there)

FlagOf(f, c) == c \in f
IntType(f, signed) ==
  LET pick(a, b) == IF signed THEN a ELSE b IN
  IF "ll" \in f \/ "l" \in f THEN pick(I64, U64)
  ELSE IF "hh" \in f THEN pick(I8, U8)
  ELSE IF "h" \in f THEN pick(I16, U16)
  ELSE pick(I32, U32)

At(f, i) == IF i <= Len(f) THEN f[i] ELSE 0

RECURSIVE FmtSpec(_, _, _, _)
\* one specification from after the '%': [t, next] (t = 0: error)
FmtSpec(f, i, fl, reading) ==
  LET c == At(f, i) IN
  CASE c = 108 -> IF At(f, i + 1) = 108 THEN FmtSpec(f, i + 2, fl \union {"ll"}, reading)
                  ELSE FmtSpec(f, i + 1, fl \union {"l"}, reading)
    [] c = 104 -> IF At(f, i + 1) = 104 THEN FmtSpec(f, i + 2, fl \union {"hh"}, reading)
                  ELSE FmtSpec(f, i + 1, fl \union {"h"}, reading)
    [] c = 109 /\ reading -> FmtSpec(f, i + 1, fl \union {"m"}, reading)
    [] c \in {105, 100} -> [t |-> IntType(fl, TRUE), next |-> i + 1]
    [] c = 117 -> [t |-> IntType(fl, FALSE), next |-> i + 1]
    [] c = 115 -> IF reading /\ ~("m" \in fl) THEN [t |-> 0, next |-> i + 1]
                  ELSE [t |-> STR, next |-> i + 1]
    [] c = 112 -> IF At(f, i + 1) = 37 /\ At(f, i + 2) = 117
                  THEN [t |-> BUF, next |-> i + 3] ELSE [t |-> 0, next |-> i + 1]
    [] c \in {102, 70, 101, 69, 103, 71} ->
         IF fl \cap {"ll", "h", "hh"} # {} THEN [t |-> 0, next |-> i + 1]
         ELSE [t |-> IF "l" \in fl THEN F64 ELSE F32, next |-> i + 1]
    [] c = 120 -> IF fl \cap {"ll", "l", "h", "hh"} # {} THEN [t |-> 0, next |-> i + 1]
                  ELSE [t |-> FD, next |-> i + 1]
    [] OTHER -> [t |-> 0, next |-> i + 1]

RECURSIVE FmtParse(_, _, _, _)
\* sequence of types, terminated by 0 if the format is refused at that point
FmtParse(f, i, reading, acc) ==
  IF i > Len(f) THEN acc
  ELSE IF f[i] # 37 THEN Append(acc, 0)
  ELSE LET s == FmtSpec(f, i + 1, {}, reading) IN
       IF s.t = 0 THEN Append(acc, 0) ELSE FmtParse(f, s.next, reading, Append(acc, s.t))
Format(f, reading) == FmtParse(f, 1, reading, <<>>)

Width(t) == CASE t \in {I8, U8} -> 1 [] t \in {I16, U16} -> 2
              [] t \in {I32, U32, F32} -> 4 [] t \in {I64, U64, F64} -> 8
=============================================================================
