---------------------------- MODULE StateTraceK ----------------------------
(* Recorded calls of several threads on one state whose reads put the default value in its place for a moment: the defect
   which is known. Executions which are none of an atomic cell either show this defect only, or another one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES n, k, cell, pending
vars == <<n, k, cell, pending>>
Events == Traces[n]
Idle == [o |-> "none", v |-> 0, step |-> 0]
Threads == 1..8
Init == n \in DOMAIN Traces /\ k = 1 /\ cell = 0 /\ pending = [t \in Threads |-> Idle]
Call == /\ k <= Len(Events) /\ Events[k].e = "call" /\ pending[Events[k].t] = Idle
        /\ pending' = [pending EXCEPT ![Events[k].t] = [o |-> Events[k].o, v |-> Events[k].v, step |-> 0]]
        /\ k' = k + 1 /\ UNCHANGED <<n, cell>>
Return == /\ k <= Len(Events) /\ Events[k].e = "return"
          /\ LET p == pending[Events[k].t] IN p.step = 2 /\ p.o = Events[k].o /\ p.v = Events[k].v
          /\ pending' = [pending EXCEPT ![Events[k].t] = Idle]
          /\ k' = k + 1 /\ UNCHANGED <<n, cell>>
Set(t) == /\ pending[t].o = "set" /\ pending[t].step = 0
          /\ cell' = pending[t].v
          /\ pending' = [pending EXCEPT ![t].step = 2]
          /\ UNCHANGED <<n, k>>
Take(t) == /\ pending[t].o = "get" /\ pending[t].step = 0
           /\ cell' = 0
           /\ pending' = [pending EXCEPT ![t].step = 1, ![t].v = cell]
           /\ UNCHANGED <<n, k>>
Put(t) == /\ pending[t].o = "get" /\ pending[t].step = 1
          /\ cell' = pending[t].v
          /\ pending' = [pending EXCEPT ![t].step = 2]
          /\ UNCHANGED <<n, k>>
(* Calls take effect only when one is about to end: earlier moments make no difference. *)
Next == \/ Call
        \/ Return
        \/ /\ k <= Len(Events) /\ Events[k].e = "return"
           /\ \E t \in Threads : Set(t) \/ Take(t) \/ Put(t)
Spec == Init /\ [][Next]_vars
Emit == k = Len(Events) + 1 => PrintT("@@" \o ToString(n))
=============================================================================
