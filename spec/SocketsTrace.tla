---------------------------- MODULE SocketsTrace ----------------------------
(* Whether recorded histories of sockets are ones of Sockets. *)
EXTENDS Sockets, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES n, k, s
vars == <<n, k, s>>
Steps == Traces[n]
Init == n \in DOMAIN Traces /\ k = 1 /\ s = First
Next == /\ k <= Len(Steps)
        (* Histories are made for streams that take and give as much as they can; where they did not, the rest is left open. *)
        /\ IF ~Can(s, Steps[k].o) THEN k' = Len(Steps) + 1 /\ s' = s
           ELSE /\ Allowed(s, Steps[k].o, Steps[k].r)
                /\ s' = After(s, Steps[k].o, Steps[k].r)
                /\ k' = k + 1
        /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
Emit == k = Len(Steps) + 1 => PrintT("@@" \o ToString(n))
=============================================================================
