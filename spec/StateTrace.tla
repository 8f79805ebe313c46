----------------------------- MODULE StateTrace -----------------------------
(* Recorded calls of several threads on one state: every call takes effect at one moment between its beginning and its end. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES n, k, cell, pending
vars == <<n, k, cell, pending>>
Events == Traces[n]
Idle == [o |-> "none", v |-> 0, done |-> FALSE]
Threads == 1..8
Init == n \in DOMAIN Traces /\ k = 1 /\ cell = 0 /\ pending = [t \in Threads |-> Idle]
Call == /\ k <= Len(Events) /\ Events[k].e = "call" /\ pending[Events[k].t] = Idle
        /\ pending' = [pending EXCEPT ![Events[k].t] = [o |-> Events[k].o, v |-> Events[k].v, done |-> FALSE]]
        /\ k' = k + 1 /\ UNCHANGED <<n, cell>>
Return == /\ k <= Len(Events) /\ Events[k].e = "return"
          /\ LET p == pending[Events[k].t] IN p.done /\ p.o = Events[k].o /\ p.v = Events[k].v
          /\ pending' = [pending EXCEPT ![Events[k].t] = Idle]
          /\ k' = k + 1 /\ UNCHANGED <<n, cell>>
(* A call takes effect only when one is about to end: earlier moments make no difference. *)
Effect(t) == /\ k <= Len(Events) /\ Events[k].e = "return" /\ ~pending[Events[k].t].done
             /\ pending[t] # Idle /\ ~pending[t].done
             /\ cell' = IF pending[t].o = "set" THEN pending[t].v ELSE cell
             /\ pending' = [pending EXCEPT ![t].done = TRUE, ![t].v = IF pending[t].o = "get" THEN cell ELSE pending[t].v]
             /\ UNCHANGED <<n, k>>
Next == Call \/ Return \/ \E t \in Threads : Effect(t)
Spec == Init /\ [][Next]_vars
Emit == k = Len(Events) + 1 => PrintT("@@" \o ToString(n))
=============================================================================
