--------------------------------- MODULE Lin ---------------------------------
(* Linearizability: a recorded concurrent run is right if some sequential    *)
(* order of its operations, in which each comes after those that had ended   *)
(* before it started (step.pre), is a run of the specification. The search   *)
(* visits all such orders; a run that has one is printed as LIN.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

D == INSTANCE Dealer
B == INSTANCE Broker
S == INSTANCE Session
I == INSTANCE Ids

Traces == ndJsonDeserialize(IOEnv.TRACES)
What == IOEnv.WHAT

VARIABLES tid, done, st
vars == <<tid, done, st>>

Init0 == CASE What = "dealer" -> D!DInit [] What = "broker" -> B!BInit [] What = "session" -> S!SInit [] What = "ids" -> I!IInit
Judge(s, e) == CASE What = "dealer" -> D!DJudge(s, e) [] What = "broker" -> B!BJudge(s, e) [] What = "session" -> S!SJudge(s, e)
                 [] What = "ids" -> I!IJudge(s, e)

Init == tid \in 1..Len(Traces) /\ done = {} /\ st = Init0

Next ==
  LET ops == Traces[tid].steps
  IN \E k \in (1..Len(ops)) \ done :
       /\ \A i \in DOMAIN ops[k].pre : ops[k].pre[i] \in done
       /\ LET j == Judge(st, ops[k]) IN
          /\ j.bad = {}
          /\ st' = j.st
          /\ done' = done \cup {k}
          /\ tid' = tid
          /\ Cardinality(done') = Len(ops) => PrintT("LIN " \o ToJson(Traces[tid].id))
Spec == Init /\ [][Next]_vars
=============================================================================
