------------------------------ MODULE WireMC ------------------------------
(* The wire format operators against each other: decoding an encoding gives   *)
(* the value back and consumes it exactly, whatever surrounds it; an encoding *)
(* never decodes as another type; a truncated encoding never decodes.         *)
EXTENDS Wire

Bs == {0, 1, 63, 64, 127, 128, 129, 255}
Vals(t) == CASE t \in {I8, U8} -> [1 .. 1 -> 0 .. 255]
             [] t \in {I16, U16} -> [1 .. 2 -> Bs]
             [] t \in {I32, U32, F32} -> [1 .. 4 -> {0, 1, 127, 128, 255}]
             [] t \in {I64, U64, F64} -> {[i \in 1 .. 8 |-> IF i = k THEN a ELSE IF i < k THEN f ELSE g] :
                                          k \in 1 .. 8, a \in Bs, f \in {0, 1, 255}, g \in {0, 255}}
             [] t = STR -> UNION {[1 .. n -> {1, 39, 255}] : n \in 0 .. 4}
             [] t = BUF -> UNION {[1 .. n -> {0, 9, 255}] : n \in 0 .. 4}
Pre == <<9, 2, 120>>

VARIABLES t, v
Init == t \in (1 .. 12) /\ v \in Vals(t)
Next == UNCHANGED <<t, v>>
Spec == Init /\ [][Next]_<<t, v>>

Enc == EncArg(t, v)
RoundTrip == \A post \in {<<>>, <<128>>, <<5, 1>>} :
             LET r == DecArg(Pre \o Enc \o post, Len(Pre), t, <<>>) IN
             r.res = "ok" /\ r.v = v /\ r.next = Len(Pre) + Len(Enc)
OnlyItsType == \A u \in 1 .. 12 \ {t} : DecArg(Enc, 0, u, <<>>).res = "mismatch"
Prefixes == \A n \in 1 .. Len(Enc) - 1 : DecArg(SubSeq(Enc, 1, n), 0, t, <<>>).res = "bad"
Sizes == t \in {I32, U32} => Len(Enc) <= 6
Sizes64 == t \in {I64, U64} => Len(Enc) <= 11
Texts == t \in {U8, U16, U32, U64} => UText(v)[1] # 48 \/ Len(UText(v)) = 1
ASSUME /\ UText(<<255, 255, 255, 255, 255, 255, 255, 255>>) = <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
       /\ IText(<<0, 0, 0, 128>>) = <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
       /\ Varint(Bits(LE32(300))) = <<172, 2>>
       /\ Varint(ZigZag(Bits(<<254, 255, 255, 255>>))) = <<3>>
=============================================================================
