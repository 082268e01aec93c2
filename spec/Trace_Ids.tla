------------------------------ MODULE Trace_Ids ------------------------------
EXTENDS Ids, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, st
vars == <<tid, i, st>>
Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = IInit
Next ==
  /\ i < Len(Traces[tid].steps)
  /\ i' = i + 1
  /\ tid' = tid
  /\ LET j == IJudge(st, Traces[tid].steps[i'])
     IN /\ st' = j.st
        /\ j.bad # {} => PrintT("BAD " \o ToJson([t |-> Traces[tid].id, i |-> i', bad |-> j.bad]))
Spec == Init /\ [][Next]_vars
=============================================================================
