------------------------------ MODULE RaceTrace ------------------------------
(* Accepts recorded executions that are behaviours of Race.tla. *)
EXTENDS Race, Json, IOUtils
VARIABLES n, k
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[n].events[k]
Init == \E i \in DOMAIN Traces : n = i /\ k = 1 /\ RInit(Traces[i].prog)
Step == CASE Ev.e = "start" -> Start(Ev.l, Ev.i)
          [] Ev.e = "finish" -> Finish(Ev.l, Ev.i)
          [] Ev.e = "out" -> Out(Ev.l, Ev.i)
          [] Ev.e = "open" -> Open(Ev.g)
          [] Ev.e = "run" -> Run(Ev.t)
          [] Ev.e = "complete" -> Complete(Ev.t)
          [] Ev.e = "await" -> Await(Ev.t, Ev.v)
          [] Ev.e = "end" -> End
          [] OTHER -> FALSE
Next == k <= Len(Traces[n].events) /\ Step /\ k' = k + 1 /\ n' = n
\* a complete execution ends
Emit == (k = Len(Traces[n].events) + 1 /\ ended) => PrintT("@@" \o ToString(n))
=============================================================================
