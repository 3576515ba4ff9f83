----------------------------- MODULE AddrTrace -----------------------------
(* Validation of the address operations of the codec driver. s: texts already  *)
(* obtained for socket addresses (with room enough).                           *)
EXTENDS Addr, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)
VARIABLES tid, l, s
vars == <<tid, l, s>>
Ev == Traces[tid].ev[l]
Has(e, f) == f \in DOMAIN e
Init == tid \in 1 .. NT /\ l = 1 /\ s = <<>>
Faulted(e) == Has(e, "flt") /\ e.flt > 0 /\ e.r < 0

AParse(e) ==
  /\ e.op = "aparse"
  /\ LET d == Parse(e.s) IN
     IF Faulted(e) THEN TRUE
     ELSE CASE d.st = "ok" -> IF Len(d.addr) > e.cap THEN e.r = -22
                              ELSE /\ e.r = 0 /\ e.al = Len(d.addr)
                                   /\ SubSeq(e.addr, 1, e.al) = d.addr
            [] d.st = "refused" -> e.r = -22
            [] OTHER -> e.r \in {0, -22} /\ (e.r = 0 => e.al <= e.cap)
  /\ s' = s
AFmt(e) ==
  /\ e.op = "afmt"
  /\ IF e.cap = 0 \/ Len(e.addr) < 16 \/ Len(e.addr) < NeedLen(e.addr) THEN e.r = -22 /\ s' = s
     ELSE /\ e.r = 0 /\ e.nul = 1
          /\ IF e.cap >= 200 THEN FormatOk(e.addr, e.txt) /\ s' = (e.addr :> e.txt) @@ s
             ELSE /\ s' = s
                  /\ (e.addr \in DOMAIN s =>
                        e.txt = IF Len(s[e.addr]) < e.cap THEN s[e.addr] ELSE SubSeq(s[e.addr], 1, e.cap - 1))
AUnix(e) == e.op = "aunix" /\ e.r = (IF Len(e.addr) >= 2 /\ Family(e.addr) = 1 THEN 1 ELSE 0) /\ s' = s
AReal(e) ==
  /\ e.op = "areal"
  /\ IF Faulted(e) THEN TRUE
     ELSE e.r = 0 /\ e.out = IF Has(e, "root") /\ StartsWith(e.s, UNIXP) /\ ~StartsWith(e.s, Append(UNIXP, 64))
                             THEN UNIXP \o e.root \o After(e.s, UNIXP) ELSE e.s
  /\ s' = s
End(e) == e.op = "end" /\ e.nalloc = 0 /\ e.n = 0 /\ e.ai = 0 /\ s' = s
Fin(e) == e.op = "fin" /\ s' = s
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Ev IN AParse(e) \/ AFmt(e) \/ AUnix(e) \/ AReal(e) \/ End(e) \/ Fin(e)
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ TLCSet(tid, l')
Spec == Init /\ [][Next]_vars
ASSUME \A t \in 1 .. NT : TLCSet(t, 1)
Rejected == {t \in 1 .. NT : TLCGet(t) # Len(Traces[t].ev) + 1}
Report == /\ PrintT(<<"TOTAL", NT, "REJECTED", Cardinality(Rejected)>>)
          /\ \A t \in Rejected : PrintT(<<"REJECT", t, TLCGet(t)>>)
ASSUME /\ V6(<<58, 58, 49>>) = Zeros(15) \o <<1>>
       /\ V6(<<58, 58>>) = Zeros(16)
       /\ V6(<<49, 58, 58>>) = <<0, 1>> \o Zeros(14)
       /\ V6(<<58, 49, 58, 58>>) = <<>>
       /\ V4(<<49, 46, 50, 46, 51, 46, 52, 53>>) = <<1, 2, 3, 45>>
=============================================================================
