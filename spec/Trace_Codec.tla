----------------------------- MODULE Trace_Codec -----------------------------
(* Conformance: evaluates Codec.tla on what the real codecs did.             *)
EXTENDS Codec, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, st
vars == <<tid, i, st>>
Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = 0
Next ==
  /\ i < Len(Traces[tid].steps)
  /\ i' = i + 1
  /\ tid' = tid
  /\ LET j == CJudge(st, Traces[tid].steps[i'])
     IN /\ st' = j.st
        /\ j.bad # {} => PrintT("BAD " \o ToJson([t |-> Traces[tid].id, i |-> i', bad |-> j.bad]))
Spec == Init /\ [][Next]_vars
=============================================================================
