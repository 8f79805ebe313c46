----------------------------- MODULE BridgeTrace -----------------------------
(* Accepts recorded executions that are behaviours of Bridge.tla. *)
EXTENDS Bridge, Json, IOUtils
VARIABLES n, k
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[n].events[k]
Init == \E i \in DOMAIN Traces : n = i /\ k = 1 /\ BInit(Traces[i].term)
Step ==
    CASE Ev.e = "begin" -> Begin
      [] Ev.e = "leaf" -> LeafPoll(Ev.id, Ev.ready) /\ Ev.rt = Leaf(term, Ev.id).rt /\ (Ev.woken => woken')
      [] Ev.e = "wake" -> IF phase = "polling" THEN Hop ELSE Ev.tick /\ woken' = TRUE /\ UNCHANGED <<term, phase, done, fired, polls, polled>>
      [] Ev.e = "pending" -> EndPending /\ (woken' => Ev.woken)
      [] Ev.e = "ready" -> EndReady(Ev.v)
      [] Ev.e = "fire" -> Fire(Ev.id) /\ (woken' => Ev.woken)
      [] Ev.e = "end" -> phase = "done" /\ Ev.live = 0 /\ Ev.leaked = 0 /\ Ev.twice = 0 /\ Ev.rt = FALSE /\ UNCHANGED bvars
Next == k <= Len(Traces[n].events) /\ Step /\ k' = k + 1 /\ n' = n
Emit == (k = Len(Traces[n].events) + 1) => PrintT("@@" \o ToString(n))
=============================================================================
