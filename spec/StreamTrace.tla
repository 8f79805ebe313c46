----------------------------- MODULE StreamTrace ----------------------------
(* Long streams which are written and read at the same time: what is read is what was written, in order, and all of it comes
   before the end. Bytes tell where they stand, and "right" says that those read are the ones of their place. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES n, k, begun, sent, got, ended
vars == <<n, k, begun, sent, got, ended>>
Events == Traces[n]
Init == n \in DOMAIN Traces /\ k = 1 /\ begun = 0 /\ sent = 0 /\ got = 0 /\ ended = FALSE
Next == /\ k <= Len(Events) /\ ~ended
        /\ k' = k + 1 /\ UNCHANGED n
        /\ LET e == Events[k] IN
           CASE e.e = "begin" -> e.n > 0 /\ begun' = sent + e.n /\ UNCHANGED <<sent, got, ended>>
             [] e.e = "sent" -> e.n > 0 /\ sent + e.n <= begun /\ sent' = sent + e.n /\ begun' = sent' /\ UNCHANGED <<got, ended>>
             [] e.e = "got" -> e.right /\ e.n > 0 /\ e.n <= e.limit /\ got + e.n <= begun /\ got' = got + e.n /\ UNCHANGED <<begun, sent, ended>>
             [] e.e = "end" -> got = sent /\ ended' = TRUE /\ UNCHANGED <<begun, sent, got>>
Spec == Init /\ [][Next]_vars
Emit == (k = Len(Events) + 1 /\ ended) => PrintT("@@" \o ToString(n))
=============================================================================
