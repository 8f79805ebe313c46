------------------------------ MODULE ArcTrace ------------------------------
(* Validates executions of the real reference-counting code, recorded under every explored thread schedule        *)
(* through the instrumented atomics, against the meaning of shared values: references are counted by the calls    *)
(* made (not by the counter), destruction happens once and only when no reference is left, in-place access is     *)
(* granted exactly to sole holders, and all accesses are ordered by the happens-before relation that the          *)
(* requested memory orderings create. Nothing here depends on how the counter encodes references.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, HappensBefore

Traces == JsonDeserialize(IOEnv.TRACES)
T == 1..3

VARIABLES n, l, m, held, begun, started, destroyed, freed, op
vars == <<n, l, m, held, begun, started, destroyed, freed, op>>
\* held: references whose drop has not begun (a clone counts from its return); begun: references whose drop has not returned

TraceInit == /\ n \in 1..Len(Traces) /\ l = 1
             /\ m = HbInit(T) /\ held = Traces[n].threads /\ begun = Traces[n].threads
             /\ started = [t \in T |-> 0]       \* begun at the start of the current call of a thread
             /\ destroyed = 0 /\ freed = 0
             /\ op = [t \in T |-> "none"]

E == Traces[n].events[l]
Is(e) == l <= Len(Traces[n].events) /\ E.e = e /\ l' = l + 1 /\ n' = n

Begin == /\ Is("begin") /\ op[E.t] = "none" /\ op' = [op EXCEPT ![E.t] = E.op]
         /\ started' = [started EXCEPT ![E.t] = begun]
         /\ held' = IF E.op = "drop" THEN held - 1 ELSE held
         /\ UNCHANGED <<m, begun, destroyed, freed>>
End == /\ Is("end") /\ op[E.t] = E.op /\ op' = [op EXCEPT ![E.t] = "none"]
       /\ CASE E.op = "clone" -> held' = held + 1 /\ begun' = begun + 1
            [] E.op = "drop" -> held' = held /\ begun' = begun - 1
            [] E.op = "mutate" -> /\ IF E.ok THEN held = 1 ELSE started[E.t] > 1
                                  /\ UNCHANGED <<held, begun>>
            [] OTHER -> UNCHANGED <<held, begun>>
       /\ UNCHANGED <<m, destroyed, freed, started>>
\* atomic operations of the code: only their effect on happens-before matters; none may touch a freed value
Atomic == \/ Is("load") /\ freed = 0 /\ m' = Load(m, E.t, E.o) /\ UNCHANGED <<held, begun, started, destroyed, freed, op>>
          \/ Is("store") /\ freed = 0 /\ m' = Store(m, E.t, E.o) /\ UNCHANGED <<held, begun, started, destroyed, freed, op>>
          \/ Is("rmw") /\ freed = 0 /\ m' = Rmw(m, E.t, E.o) /\ UNCHANGED <<held, begun, started, destroyed, freed, op>>
          \/ Is("fence") /\ m' = Fence(m, E.t, E.o) /\ UNCHANGED <<held, begun, started, destroyed, freed, op>>
Access == \/ /\ Is("read") /\ destroyed = 0 /\ E.ok /\ RaceFreeRead(m, E.t) /\ m' = Read(m, E.t)
             /\ UNCHANGED <<held, begun, started, destroyed, freed, op>>
          \/ /\ Is("write") /\ destroyed = 0 /\ held = 1 /\ RaceFreeWrite(m, E.t) /\ m' = Write(m, E.t)
             /\ UNCHANGED <<held, begun, started, destroyed, freed, op>>
Destroy == /\ Is("destroy") /\ destroyed = 0 /\ held = 0 /\ op[E.t] = "drop"
           /\ RaceFreeWrite(m, E.t) /\ m' = Write(m, E.t) /\ destroyed' = 1
           /\ UNCHANGED <<held, begun, started, freed, op>>
FreeMem == /\ Is("free") /\ destroyed = 1 /\ freed = 0 /\ held = 0 /\ freed' = 1
           /\ RaceFreeWrite(m, E.t) /\ m' = Write(m, E.t)
           /\ UNCHANGED <<held, begun, started, destroyed, op>>
\* the end of an execution: everything has been dropped and released
Finish == /\ Is("finish") /\ held = 0 /\ begun = 0 /\ destroyed = 1 /\ freed = 1
          /\ UNCHANGED <<m, held, begun, started, destroyed, freed, op>>

TraceNext == Begin \/ End \/ Atomic \/ Access \/ Destroy \/ FreeMem \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == l = Len(Traces[n].events) + 1 => PrintT("@@" \o ToString(n))
=============================================================================
