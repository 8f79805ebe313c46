---------------------------- MODULE ProcessTrace ----------------------------
(* Whether recorded processes did what Process allows. *)
EXTENDS Process, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES n, k, s
vars == <<n, k, s>>
Steps == Traces[n].steps
Init == n \in DOMAIN Traces /\ k = 1 /\ s = First
Next == /\ k <= Len(Steps)
        /\ s.over => Steps[k].o.o = "end"
        /\ Allowed(Traces[n].start, s, Steps[k].o, Steps[k].r)
        /\ s' = After(s, Steps[k].o, Steps[k].r)
        /\ k' = k + 1 /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
Emit == k = Len(Steps) + 1 => PrintT("@@" \o ToString(n))
=============================================================================
