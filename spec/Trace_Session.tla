---------------------------- MODULE Trace_Session ----------------------------
(* Conformance: evaluates Session.tla on recorded runs of real sessions.     *)
EXTENDS Session, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, st
vars == <<tid, i, st>>

Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = SInit

Next ==
  /\ i < Len(Traces[tid].steps)
  /\ i' = i + 1
  /\ tid' = tid
  /\ LET j == SJudge(st, Traces[tid].steps[i'])
     IN /\ st' = j.st
        /\ j.bad # {} => PrintT("BAD " \o ToJson([t |-> Traces[tid].id, i |-> i', bad |-> j.bad]))

Spec == Init /\ [][Next]_vars
=============================================================================
