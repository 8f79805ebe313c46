----------------------------- MODULE Conversion -----------------------------
(* Conversions between native and runtime representations (property C07). A value is a tree; the current one is held *)
(* in some representation (rep) and converted step by step.                                                          *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES rep, d, hist
vars == <<rep, d, hist>>
\* type of the contents: number, boolean, none, string, list, error
Natives == << <<"number", "0">>, <<"number", "-1.5">>, <<"number", "1e300">>, <<"number", "nan">>, <<"number", "-0">>,
              <<"boolean", "t">>, <<"boolean", "f">>, <<"none", "none">>,
              <<"string", "''">>, <<"string", "'x'">>, <<"string", "'some longer text, longer than a word'">> >>
Via == [number |-> <<"f64", "new">>, boolean |-> <<"bool", "new">>, none |-> <<"default">>,
        string |-> <<"str", "string", "vec", "slice", "char">>, list |-> <<"own">>, error |-> <<"own">>]
TypesOf == {"number", "boolean", "none", "string", "list", "error"}
Log(e) == hist' = Append(hist, e @@ [rep |-> rep', d |-> d'])
Init == rep = "empty" /\ d = "" /\ hist = <<>>
Make == rep = "empty" /\ \E i \in DOMAIN Natives : \E j \in DOMAIN Via[Natives[i][1]] :
           LET via == Via[Natives[i][1]][j] IN
           /\ (via = "char") => Natives[i][2] = "'x'"
           /\ rep' = Natives[i][1] /\ d' = Natives[i][2] /\ Log([op |-> "make", t |-> Natives[i][1], via |-> via])
ToAny == rep \in TypesOf /\ rep' = "any:" \o rep /\ d' = d /\ Log([op |-> "any"])
IsAny == rep \in {"any:" \o t : t \in TypesOf}
TypeOf == CHOOSE t \in TypesOf : rep = "any:" \o t
As(t) == /\ IsAny /\ IF TypeOf = t THEN rep' = t /\ d' = d ELSE rep' = "refused" /\ d' = ""
         /\ Log([op |-> "as", t |-> t])
\* the answers of all type predicates
Is == IsAny /\ UNCHANGED <<rep, d>> /\ Log([op |-> "is", yes |-> TypeOf])
Copy == rep # "empty" /\ rep # "refused" /\ UNCHANGED <<rep, d>> /\ Log([op |-> "copy"])
Native == rep \in {"number", "boolean", "string"} /\ UNCHANGED <<rep, d>> /\ Log([op |-> "native"])
\* lists of the value
List(n) == (IsAny \/ rep \in {"number", "string", "boolean"}) /\ rep' = "list"
           /\ d' = "[" \o (CASE n = 0 -> "" [] n = 1 -> d [] n = 2 -> d \o "," \o d) \o "]" /\ Log([op |-> "list", n |-> n])
Prepend == rep = "list" /\ rep' = "list" /\ d' = (IF d = "[]" THEN "[5]" ELSE "[5," \o SubSeq(d, 2, Len(d))) /\ Log([op |-> "prepend"])
Lazy == rep = "list" /\ UNCHANGED <<rep, d>> /\ Log([op |-> "lazy"])
ToError == IsAny /\ rep' = "error" /\ d' = "error(" \o d \o ")" /\ Log([op |-> "error"])
StdError == rep = "string" /\ rep' = "error" /\ d' = "error(" \o d \o ")" /\ Log([op |-> "stderror"])
\* results carry a value or an error
Ok == IsAny /\ rep' = rep /\ d' = d /\ Log([op |-> "ok"])
Err == IsAny /\ rep' = "any:error" /\ d' = "error(" \o d \o ")" /\ Log([op |-> "err"])
Next == /\ Len(hist) < MaxLen
        /\ Make \/ ToAny \/ (\E t \in TypesOf \ {"none"} : As(t)) \/ Is \/ Copy \/ Native \/ (\E n \in 0..2 : List(n)) \/ Prepend \/ Lazy
           \/ ToError \/ StdError \/ Ok \/ Err
Finished == Len(hist) = MaxLen \/ rep = "refused"
Emit == Finished => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
