------------------------------- MODULE IdsModel -------------------------------
(* The session scope generator at the level of its memory accesses: threads  *)
(* take the lock, read the counter, write it, release. Max stands for 2^53.  *)
(* What the threads got, in the order in which they got it, must be what     *)
(* Ids.tla prescribes (restated here for a small Max).                       *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, Max, Calls, Locked   \* Locked = FALSE: the generator without its mutex
VARIABLES ctr, lock, pc, tmp, left, got
vars == <<ctr, lock, pc, tmp, left, got>>
Init == /\ ctr = 0 /\ lock = "free" /\ got = <<>>
        /\ pc = [t \in Threads |-> "idle"] /\ tmp = [t \in Threads |-> 0] /\ left = [t \in Threads |-> Calls]
Take(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ (Locked => lock = "free")
           /\ lock' = IF Locked THEN t ELSE lock
           /\ pc' = [pc EXCEPT ![t] = "read"] /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<ctr, tmp, got>>
Read(t) == /\ pc[t] = "read" /\ tmp' = [tmp EXCEPT ![t] = IF ctr = Max THEN 0 ELSE ctr]
           /\ pc' = [pc EXCEPT ![t] = "write"] /\ UNCHANGED <<ctr, lock, left, got>>
Write(t) == /\ pc[t] = "write" /\ ctr' = tmp[t] + 1 /\ got' = Append(got, tmp[t] + 1)
            /\ pc' = [pc EXCEPT ![t] = "free"] /\ UNCHANGED <<lock, tmp, left>>
Free(t) == /\ pc[t] = "free" /\ lock' = IF Locked THEN "free" ELSE lock
           /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<ctr, tmp, left, got>>
Next == \E t \in Threads : Take(t) \/ Read(t) \/ Write(t) \/ Free(t)
Spec == Init /\ [][Next]_vars
C26_Sequence == \A i \in 1..Len(got) : got[i] = ((i - 1) % Max) + 1
C26_Unique == \A i, j \in 1..Len(got) : i < j /\ j - i < Max => got[i] # got[j]
=============================================================================
