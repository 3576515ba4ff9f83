-------------------------------- MODULE Addr --------------------------------
(* Address strings and socket addresses (libpomp.h): what each string denotes, *)
(* on sequences of bytes.                                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

ToStr(t) == t                      \* texts are sequences of character codes
INETP  == <<105,110,101,116,58>>           \* "inet:"
INET6P == <<105,110,101,116,54,58>>        \* "inet6:"
UNIXP  == <<117,110,105,120,58>>           \* "unix:"
FAMP   == <<97,100,100,114,58,102,97,109,105,108,121,58>>  \* "addr:family:"

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
After(s, p) == SubSeq(s, Len(p) + 1, Len(s))

IsDigit(c) == c \in 48 .. 57
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c \in 97 .. 102 THEN c - 87
             ELSE IF c \in 65 .. 70 THEN c - 55 ELSE -1
RECURSIVE Num(_, _, _)
Num(s, base, acc) == IF s = <<>> THEN acc ELSE Num(Tail(s), base, acc * base + HexVal(Head(s)))
RECURSIVE DecOf(_)
DecOf(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecOf(n \div 10), 48 + (n % 10))
\* canonical decimal number of at most k digits: its value, or -1
Decimal(s, k) == IF s = <<>> \/ Len(s) > k \/ (\E i \in 1 .. Len(s) : ~IsDigit(s[i])) THEN -1
                 ELSE IF Len(s) > 1 /\ s[1] = 48 THEN -1 ELSE Num(s, 10, 0)

\* pieces of s between separators c
RECURSIVE Split(_, _, _)
Split(s, c, cur) == IF s = <<>> THEN <<cur>>
                    ELSE IF Head(s) = c THEN <<cur>> \o Split(Tail(s), c, <<>>)
                    ELSE Split(Tail(s), c, Append(cur, Head(s)))

\* dotted quad: 4 bytes or <<>>
V4(s) == LET p == Split(s, 46, <<>>) IN
         IF Len(p) = 4 /\ \A i \in 1 .. 4 : Decimal(p[i], 3) \in 0 .. 255
         THEN [i \in 1 .. 4 |-> Decimal(p[i], 3)] ELSE <<>>

\* groups of an IPv6 text part (no "::"): bytes, or <<-1>> if malformed
RECURSIVE Groups(_)
Groups(p) == IF p = <<>> THEN <<>>
             ELSE LET g == Head(p) IN
                  IF Len(p) = 1 /\ V4(g) # <<>> THEN V4(g)
                  ELSE IF Len(g) \in 1 .. 4 /\ \A i \in 1 .. Len(g) : HexVal(g[i]) >= 0
                  THEN LET n == Num(g, 16, 0)
                           r == Groups(Tail(p)) IN
                       IF r = <<-1>> THEN <<-1>> ELSE <<n \div 256, n % 256>> \o r
                  ELSE <<-1>>
DoubleColon(s) == {i \in 1 .. Len(s) - 1 : s[i] = 58 /\ s[i + 1] = 58}
Part(s) == IF s = <<>> THEN <<>> ELSE Groups(Split(s, 58, <<>>))
V6(s) ==
  LET S == DoubleColon(s) IN
  IF S = {} THEN LET b == Part(s) IN IF Len(b) = 16 THEN b ELSE <<>>
  ELSE IF Cardinality(S) # 1 THEN <<>>
  ELSE LET i == CHOOSE i \in S : TRUE
           a == Part(SubSeq(s, 1, i - 1))
           b == Part(SubSeq(s, i + 2, Len(s))) IN
       IF a = <<-1>> \/ b = <<-1>> \/ Len(a) + Len(b) > 14 THEN <<>>
       ELSE a \o [k \in 1 .. 16 - Len(a) - Len(b) |-> 0] \o b

Zeros(n) == [i \in 1 .. n |-> 0]
Pad(s, n) == s \o Zeros(n - Len(s))
LastColon(s) == LET S == {i \in 1 .. Len(s) : s[i] = 58} IN
                IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Port(s) == LET n == Decimal(s, 5) IN IF n > 65535 THEN -1 ELSE n
BE16(n) == <<n \div 256, n % 256>>
SockV4(b, port) == <<2, 0>> \o BE16(port) \o b \o Zeros(8)
SockV6(b, port) == <<10, 0>> \o BE16(port) \o Zeros(4) \o b \o Zeros(4)
SizeUn == 110

(* What a string denotes: [st |-> "ok", addr], "refused", or "any" (forms the *)
(* documentation says nothing of: historical IPv4 notations, names of         *)
(* services, addresses of the other family, scopes, empty names).             *)
Refused == [st |-> "refused", addr |-> <<>>]
Whatever == [st |-> "any", addr |-> <<>>]
Denotes(a) == [st |-> "ok", addr |-> a]
HostPort(s, fam) ==
  LET k == LastColon(s)
      host == SubSeq(s, 1, k - 1)
      port == Port(SubSeq(s, k + 1, Len(s)))
      v4 == V4(host)
      v6 == V6(host) IN
  IF k = 0 THEN Refused
  ELSE IF host = <<>> THEN Refused
  ELSE IF v4 = <<>> /\ v6 = <<>> THEN
       \* letters that no notation of a number uses, or bytes that are not even text
       IF \E i \in 1 .. Len(host) : ~(HexVal(host[i]) >= 0 \/ host[i] \in {46, 58, 120, 88, 37, 42}) /\
          ~(\E j \in 1 .. i : host[j] = 37) THEN Refused ELSE Whatever
  ELSE IF port < 0 THEN
       LET p == SubSeq(s, k + 1, Len(s)) IN
       IF p # <<>> /\ \A i \in 1 .. Len(p) : IsDigit(p[i]) /\ p[1] # 48 THEN Refused ELSE Whatever
  ELSE IF fam = 4 THEN (IF v4 # <<>> THEN Denotes(SockV4(v4, port)) ELSE Whatever)
  ELSE (IF v6 # <<>> THEN Denotes(SockV6(v6, port)) ELSE Whatever)

Parse(s) ==
  IF StartsWith(s, INETP) THEN HostPort(After(s, INETP), 4)
  ELSE IF StartsWith(s, INET6P) THEN HostPort(After(s, INET6P), 6)
  ELSE IF StartsWith(s, UNIXP) THEN
       LET p == After(s, UNIXP) IN
       IF Len(p) > 107 THEN Refused
       ELSE IF p = <<>> \/ p = <<64>> THEN Whatever
       ELSE Denotes(<<1, 0>> \o Pad(IF p[1] = 64 THEN <<0>> \o Tail(p) ELSE p, 108))
  ELSE Refused

\* text until the first NUL
RECURSIVE CStr(_)
CStr(s) == IF s = <<>> \/ Head(s) = 0 THEN <<>> ELSE <<Head(s)>> \o CStr(Tail(s))

Family(a) == a[1] + 256 * a[2]
(* Is txt a text of the socket address a? (any equivalent text is good)       *)
FormatOk(a, txt) ==
  CASE Family(a) = 2 -> txt = INETP \o DecOf(a[5]) \o <<46>> \o DecOf(a[6]) \o <<46>> \o DecOf(a[7]) \o <<46>> \o DecOf(a[8])
                              \o <<58>> \o DecOf(256 * a[3] + a[4])
    [] Family(a) = 10 -> /\ StartsWith(txt, INET6P)
                         /\ LET s == After(txt, INET6P)
                                k == LastColon(s) IN
                            /\ k > 0
                            /\ SubSeq(s, k + 1, Len(s)) = DecOf(256 * a[3] + a[4])
                            /\ (Zeros(4) = SubSeq(a, 25, 28) => V6(SubSeq(s, 1, k - 1)) = SubSeq(a, 9, 24))
    [] Family(a) = 1 -> txt = UNIXP \o (IF a[3] = 0 THEN <<64>> \o CStr(SubSeq(a, 4, SizeUn)) ELSE CStr(SubSeq(a, 3, SizeUn)))
    [] OTHER -> txt = FAMP \o DecOf(Family(a))
\* shortest length with which an address of that family is complete
NeedLen(a) == CASE Family(a) = 2 -> 16 [] Family(a) = 10 -> 28 [] Family(a) = 1 -> SizeUn [] OTHER -> 16
=============================================================================
