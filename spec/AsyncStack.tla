----------------------------- MODULE AsyncStack -----------------------------
(* The suspend / resume / restore / trampoline protocol of asynchronous stacks (property C05).                     *)
(* next: actions the stack will accept, in order; data: what lies on it; ctx: whether requests are made inside an   *)
(* execution context. A refused request ends the protocol part of a behaviour; what lies on the stack stays.       *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen, Futures, Conts,
          Illegal      \* whether out-of-order requests are made
VARIABLES next, data, result, phase, wakes, hist
vars == <<next, data, result, phase, wakes, hist>>
Top == data[Len(data)]
Rest(n) == SubSeq(data, 1, Len(data) - n)
Id == Len(hist) + 1
Log(e) == hist' = Append(hist, e @@ [wakes |-> wakes'])
Init == next = <<"Suspend">> /\ data = <<>> /\ result = 0 /\ phase = "ok" /\ wakes = 0 /\ hist = <<>>
Allowed(a) == next # <<>> /\ Head(next) = a
Expected == IF next = <<>> THEN "None" ELSE Head(next)
Refuse(a, e) == /\ Illegal /\ ~Allowed(a) /\ phase' = "refused" /\ UNCHANGED <<next, data, result, wakes>>
                /\ Log(e @@ [op |-> a, ok |-> FALSE, expected |-> Expected])
Suspend(f, c, ctx) ==
    LET e == [f |-> f, c |-> c, id |-> Id, ctx |-> ctx] IN
    \/ /\ Allowed("Suspend")
       /\ next' = <<"Resume", "Restore", "Suspend">> \o Tail(next)
       /\ data' = data \o << <<"fut", f, Id>>, <<"step", "s", Id>>, <<"cont", c, Id>> >>
       /\ UNCHANGED <<result, phase, wakes>> /\ Log(e @@ [op |-> "Suspend", ok |-> TRUE])
    \/ Refuse("Suspend", e)
\* a trampoline needs a context, whose waker it invokes
Trampoline(c, ctx) ==
    LET e == [c |-> c, id |-> Id, ctx |-> ctx] IN
    \/ /\ Allowed("Suspend") /\ ctx
       /\ next' = <<"Resume", "Suspend">> \o Tail(next)
       /\ data' = data \o << <<"val", "v", Id>>, <<"step", "t", Id>>, <<"cont", c, Id>> >>
       /\ wakes' = wakes + 1 /\ UNCHANGED <<result, phase>>
       /\ Log(e @@ [op |-> "Trampoline", ok |-> TRUE])
    \/ /\ Illegal /\ Allowed("Suspend") /\ ~ctx
       /\ phase' = "end" /\ UNCHANGED <<next, data, result, wakes>>
       /\ Log(e @@ [op |-> "Trampoline", ok |-> FALSE, expected |-> "MissingContext"])
    \/ /\ Illegal /\ ~Allowed("Suspend") /\ phase' = "refused" /\ UNCHANGED <<next, data, result, wakes>>
       /\ Log(e @@ [op |-> "Trampoline", ok |-> FALSE, expected |-> Expected])
Resume ==
    \/ /\ Allowed("Resume") /\ next' = Tail(next) /\ UNCHANGED <<result, wakes, phase>>
       /\ LET c == Top  s == data[Len(data) - 1] IN
          IF s[2] = "t"   \* the trampoline's step function is run at once: it hands the value to the continuation
          THEN /\ data' = Rest(3) /\ Log([op |-> "Resume", ok |-> TRUE, step |-> "t", c |-> c[2], v |-> data[Len(data) - 2][3]])
          ELSE /\ data' = Rest(2) /\ Log([op |-> "Resume", ok |-> TRUE, step |-> "s", c |-> c[2], v |-> 0])
    \/ Refuse("Resume", [v |-> 0])
Restore(f) ==
    \/ /\ Allowed("Restore") /\ Top[2] = f /\ next' = Tail(next) /\ UNCHANGED <<result, wakes, phase>>
       /\ data' = Rest(1) /\ Log([op |-> "Restore", ok |-> TRUE, f |-> f, v |-> Top[3]])
    \/ Refuse("Restore", [f |-> f])
\* the program's own values
Push == /\ Allowed("Suspend") /\ data' = Append(data, <<"user", "u", Id>>) /\ UNCHANGED <<next, result, phase, wakes>>
        /\ Log([op |-> "Push", id |-> Id])
Pop == /\ data # <<>> /\ Top[1] = "user" /\ data' = Rest(1) /\ UNCHANGED <<next, result, phase, wakes>>
       /\ Log([op |-> "Pop", v |-> Top[3]])
Resolve == /\ result' = Id /\ UNCHANGED <<next, data, phase, wakes>> /\ Log([op |-> "Resolve", id |-> Id])
TakeResult == /\ result' = 0 /\ UNCHANGED <<next, data, phase, wakes>> /\ Log([op |-> "Resolved", v |-> result])
Active == \/ \E f \in Futures, c \in Conts, x \in BOOLEAN : Suspend(f, c, x)
          \/ \E c \in Conts, x \in BOOLEAN : Trampoline(c, x)
          \/ Resume \/ (\E f \in Futures : Restore(f)) \/ Push
Next == /\ Len(hist) < MaxLen /\ phase # "end"
        /\ (phase = "ok" /\ (Active \/ Resolve \/ TakeResult)) \/ Pop
Spec == Init /\ [][Next]_vars
\* the data on the stack always matches the actions expected next
Matches == \/ next = <<"Suspend">> /\ (data = <<>> \/ Top[1] = "user")
           \/ next = <<"Resume", "Restore", "Suspend">> /\ Len(data) >= 3 /\ Top[1] = "cont" /\ data[Len(data) - 2][1] = "fut"
           \/ next = <<"Resume", "Suspend">> /\ Len(data) >= 3 /\ Top[1] = "cont" /\ data[Len(data) - 2][1] = "val"
           \/ next = <<"Restore", "Suspend">> /\ Top[1] = "fut"
\* what remains to be popped at the end, innermost last
Remains == [i \in DOMAIN data |-> data[i]]
Finished == Len(hist) = MaxLen \/ phase = "end" \/ (phase = "refused" /\ ~(data # <<>> /\ Top[1] = "user"))
Emit == Finished => PrintT("@@" \o ToJson([hist |-> hist, left |-> IF phase = "end" THEN <<>> ELSE Remains, leftok |-> phase # "end"]))
=============================================================================
