---------------------------- MODULE Trace_System ----------------------------
(* Conformance: evaluates System.tla on runs of real sessions, acceptors,    *)
(* joiners, dealer and broker connected to each other.                       *)
EXTENDS System, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, st
vars == <<tid, i, st>>

Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = YInit

Next ==
  /\ i < Len(Traces[tid].steps)
  /\ i' = i + 1
  /\ tid' = tid
  /\ LET j == YJudge(st, Traces[tid].steps[i'])
     IN /\ st' = j.st
        /\ j.bad # {} => PrintT("BAD " \o ToJson([t |-> Traces[tid].id, i |-> i', bad |-> j.bad]))

Spec == Init /\ [][Next]_vars
=============================================================================
