----------------------------- MODULE HttpTrace ------------------------------
(* Whether recorded exchanges, several of which are under way at once, are ones of Http. *)
EXTENDS Http, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES n, k, st
vars == <<n, k, st>>
Events == Traces[n].events
X(i) == Traces[n].exchanges[i]
Init == n \in DOMAIN Traces /\ k = 1 /\ st = [i \in DOMAIN Traces[n].exchanges |-> "none"]
Next == /\ k <= Len(Events)
        /\ LET e == Events[k] IN
           CASE e.e = "begin" -> Begin(st[e.i]) /\ st' = [st EXCEPT ![e.i] = "begun"]
             [] e.e = "seen" -> e.i \in DOMAIN st /\ See(st[e.i], X(e.i).q, e.x) /\ st' = [st EXCEPT ![e.i] = "seen"]
             [] e.e = "got" -> Get(st[e.i], X(e.i).q, X(e.i).a, e.x) /\ st' = [st EXCEPT ![e.i] = "done"]
        /\ k' = k + 1 /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
Emit == (k = Len(Events) + 1 /\ \A i \in DOMAIN st : st[i] = "done") => PrintT("@@" \o ToString(n))
=============================================================================
