---------------------------- MODULE Trace_Dealer ----------------------------
(* Conformance: evaluates the dealer specification on runs of the real code. *)
(* TRACES names an ndjson file, one recorded run per line. The monitor is    *)
(* total: every run is consumed to its end, each step's broken conjuncts are *)
(* printed as BAD lines.                                                     *)
EXTENDS Dealer, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, st
vars == <<tid, i, st>>

Prep(e) == [e EXCEPT !.has = SeqSet(@), !.uni = SeqSet(@)]

Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = DInit

Next ==
  /\ i < Len(Traces[tid].steps)
  /\ i' = i + 1
  /\ tid' = tid
  /\ LET e == Prep(Traces[tid].steps[i'])
         j == DJudge(st, e)
         bad == j.bad \cup (IF Crashed(e.out) THEN {} ELSE HasOK(j.st, e))
     IN /\ st' = j.st
        /\ bad # {} => PrintT("BAD " \o ToJson([t |-> Traces[tid].id, i |-> i', bad |-> bad]))

Spec == Init /\ [][Next]_vars
=============================================================================
