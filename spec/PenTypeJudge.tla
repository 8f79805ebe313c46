---------------------------- MODULE PenTypeJudge -----------------------------
(* Verdicts on given modules. *)
EXTENDS PenTypes, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE i, done
Init == i \in DOMAIN Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ i' = i /\ PrintT("@@" \o ToJson([i |-> i, v |-> Verdict(Cases[i])]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
