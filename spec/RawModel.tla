------------------------------- MODULE RawModel ------------------------------
(* Enumerates handshakes and headers: all limits near a power of two, all    *)
(* serializers, all second bytes, boundary lengths; encoding and decoding    *)
(* are inverse on each, and each is a case for the harness.                  *)
EXTENDS RawSocket, Integers, Json
CONSTANTS Fine      \* a step for lengths: every Fine-th length below 2^24 is tried too
VARIABLES x, n
vars == <<x, n>>

Near == UNION {{Pow2(k) - 1, Pow2(k), Pow2(k) + 1, Pow2(k) + Pow2(k) \div 2} : k \in 0..26} \cup {-1, -512, 0, 3, 1000, 16777215, 33554432, 1000000000}
HsEncs == {[op |-> "hsenc", ser |-> s, size |-> z] : s \in {-1, 16, 17, 255, 256, 257} \cup 0..15, z \in Near}
Vals == {0, 1, 126, 127, 128, 255}
HsDecs == {[op |-> "hsdec", bytes |-> <<m, b, 0, 0>>] : m \in {127}, b \in 0..255}
  \cup {[op |-> "hsdec", bytes |-> <<m, b, c, d>>] : m \in Vals, b \in {0, 1, 33, 127, 243, 255}, c \in {0, 1, 128, 255}, d \in {0, 1, 128, 255}}
  \cup {[op |-> o, bytes |-> [i \in 1..k |-> IF i = 1 THEN m ELSE IF i = 2 THEN 17 ELSE 0]] : o \in {"hsdec", "hdrdec"}, k \in 0..9, m \in {0, 127}}
Lens == {z \in Near : z >= 0 /\ z < 16777216} \cup {255, 256, 65535, 65536, 65537, 8388608, 16777215}
  \cup {k * Fine : k \in 0..((16777215) \div Fine)}
HdrEncs == {[op |-> "hdrenc", kind |-> k, len |-> z] : k \in 0..2, z \in Lens} \cup {[op |-> "i2b", len |-> z] : z \in Lens}
  \cup {[op |-> "hdrenc", kind |-> k, len |-> z] : k \in {3, 127, 255}, z \in {0, 65536}}
HdrDecs == {[op |-> "hdrdec", bytes |-> <<k, a, b, c>>] : k \in {0, 1, 2, 3, 255}, a \in Vals, b \in Vals, c \in Vals}
Shapes == HsEncs \cup HsDecs \cup HdrEncs \cup HdrDecs

Init == x \in Shapes /\ n = 0
Next == n = 0 /\ n' = 1 /\ x' = x
Spec == Init /\ [][Next]_vars
EmitHist == PrintT("SCN " \o ToJson(<<x>>))
View == <<x, n>>

C25_Inverse ==
  /\ x.op = "hsenc" /\ x.size \in Limits /\ x.ser \in 0..15 =>
       LET b == HsEnc(x.ser, x.size) IN HsOk(b) /\ HsSer(b) = x.ser /\ HsSize(b) = x.size /\ \A i \in 1..4 : b[i] \in 0..255
  /\ x.op = "hdrenc" => LET b == HdrEnc(x.kind, x.len) IN Len(b) = 4 /\ b[1] = x.kind /\ HdrLen(b) = x.len /\ \A i \in 1..4 : b[i] \in 0..255
  /\ x.op = "hsdec" /\ HsOk(x.bytes) => HsEnc(HsSer(x.bytes), HsSize(x.bytes)) = x.bytes
=============================================================================
