------------------------------ MODULE RawSocket ------------------------------
(* The raw socket handshake (4 bytes: 0x7F, limit and serializer, 0, 0) and  *)
(* the frame header (4 bytes: kind, 24 bit length). Bytes are numbers.       *)
EXTENDS Uri

Magic == 127
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Exps == 9..24
Limits == {Pow2(k) : k \in Exps}
Exp == [l \in Limits |-> CHOOSE k \in Exps : Pow2(k) = l]

HsEnc(ser, size) == <<Magic, (Exp[size] - 9) * 16 + ser, 0, 0>>
HsOk(b) == Len(b) = 4 /\ b[1] = Magic /\ b[3] = 0 /\ b[4] = 0
HsSer(b) == b[2] % 16
HsSize(b) == Pow2((b[2] \div 16) + 9)

Bytes3(len) == <<(len \div 65536) % 256, (len \div 256) % 256, len % 256>>
HdrEnc(kind, len) == <<kind>> \o Bytes3(len)
HdrLen(b) == b[2] * 65536 + b[3] * 256 + b[4]

WCrashed(o) == o.k \in {"panic", "hang"}

\* numbers beyond TLC's are marked big
WJudge(s, e) ==
  LET o == e.out IN
  R(s, IF WCrashed(o) THEN {"C25:handshake or header handling panics"} ELSE
  CASE e.op = "hsenc" ->
         IF ~e.big /\ e.size \in Limits /\ e.ser \in 1..15
         THEN Ck(o.k = "ok" /\ o.bytes = HsEnc(e.ser, e.size), {"C25:handshake is not encoded"})
              \cup Ck(o.k # "ok" \/ (o.back = "ok" /\ o.ser = e.ser /\ o.size = e.size), {"C25:handshake does not decode to what was encoded"})
         ELSE IF ~e.big /\ e.size \in Limits /\ e.ser = 0
         THEN Ck(o.k = "err" \/ o.bytes = HsEnc(e.ser, e.size), {"C25:handshake is not encoded"})
         ELSE IF e.big \/ e.size \notin Limits THEN Ck(o.k = "err", {"C25:limit that does not fit the handshake accepted"})
         ELSE Ck(o.k = "err", {"C25:serializer that does not fit the handshake accepted"})
    [] e.op = "hsdec" ->
         IF HsOk(e.bytes)
         THEN IF HsSer(e.bytes) = 0 /\ o.k = "err" THEN {}      \* an error reply, or a serializer id nobody has
              ELSE Ck(o.k = "ok" /\ o.ser = HsSer(e.bytes) /\ o.size = HsSize(e.bytes), {"C25:handshake is not decoded"})
         ELSE Ck(o.k = "err", {"C25:malformed handshake accepted"})
    [] e.op = "hdrenc" ->
         IF e.big \/ e.len < 0 \/ e.len >= 16777216 THEN {}
         ELSE Ck(o.bytes = HdrEnc(e.kind, e.len), {"C25:frame header is not encoded"})
              \cup Ck(o.back = "ok" /\ o.kind = e.kind /\ o.len = e.len, {"C25:frame header does not decode to what was encoded"})
    [] e.op = "hdrdec" ->
         IF Len(e.bytes) # 4 THEN Ck(o.k = "err", {"C25:frame header of another length accepted"})
         ELSE IF e.bytes[1] > 2 /\ o.k = "err" THEN {}
         ELSE Ck(o.k = "ok" /\ o.kind = e.bytes[1] /\ o.len = HdrLen(e.bytes), {"C25:frame header is not decoded"})
    [] e.op = "i2b" ->
         IF e.big \/ e.len < 0 \/ e.len >= 16777216 THEN {}
         ELSE Ck(o.bytes = Bytes3(e.len) /\ o.len = e.len, {"C25:length is not encoded"})
    [] OTHER -> {})
=============================================================================
